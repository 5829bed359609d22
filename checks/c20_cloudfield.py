import numpy as np

from solarspatialtools.synthirrad import cloudfield as cf
from mon import cloudref

ID = 'C20'
RULE = ('Fields of random sizes (strips, single rows, odd sizes), octave '
        'weights, clear fractions from 0 to 1, targets the method can and '
        'cannot meet, both scalings and several edge widths: whole pipeline '
        'under a reset random stream, and each stage on hand-made fields.  '
        'Distinct = (stage, size class, octaves, scaling, how the target was '
        'met, edge width).')
REQUIRED = ['shape', 'finite', 'repeatable', 'seed-matters', 'clear-fraction',
            'mean', 'bounds', 'pipeline', 'bad-scaling', 'bad-fraction',
            'weights-mismatch', 'octave', 'stack', 'normalized', 'mask-level',
            'mask-fraction', 'edges', 'edge-band', 'edge-threshold',
            'lave', 'lave-mean', 'lave-fallback', 'basic', 'basic-mean',
            'basic-fallback', 'clear-value', 'enhancement', 'smoothed-clear',
            'flip', 'vs-weights', 'wavelet-weights', 'negative-vs',
            'all-clear', 'rank']
ASSUMES = ['The two octave stacks of a field draw from the global random '
           'stream; which of the two is the mask is not prescribed.',
           'At least a few cloudy pixels with different values, or none.']


def size_of(rng, small=False):
    k = rng.integers(0, 5)
    if k == 0:
        return int(rng.integers(30, 400)), 1
    if k == 1:
        return 1, int(rng.integers(30, 400))
    if k == 2:
        return int(rng.integers(200, 900)), int(rng.integers(2, 12))
    n = 30 if small else 90
    if rng.integers(0, 25) == 0:
        return int(rng.integers(130, 400)), int(rng.integers(130, 300))
    return int(rng.integers(8, n)), int(rng.integers(8, n))


def octaves(rng):
    n = int(rng.integers(1, 9))
    w = rng.dirichlet(np.ones(n))
    sc = list(range(1, n + 1))
    if rng.uniform() < 0.2:
        sc = sorted(int(x) for x in rng.choice(np.arange(1, 12), n, False))
    if n > 1 and rng.uniform() < 0.5:      # mostly coarse, as real clouds are
        w = np.sort(w)
    sc[0] = 1                 # never a constant field or repeated columns
    w = np.maximum(w, 0.01)
    w = w / w.sum()
    return w, sc


def pipeline(case):
    rng = case.rng
    size = size_of(rng)
    N = size[0] * size[1]
    w, sc = octaves(rng)
    frac = float(rng.choice([0.0, 1.0, 0.02, 0.1, 0.3, rng.uniform(0, 0.6),
                             rng.uniform(0, 0.9)]))
    if frac < 1 and round((1 - frac) * N) < 8:
        frac = 0.5
    ktmax = float(rng.uniform(1.0, 1.5))
    kt1 = float(rng.uniform(0.05, 0.4))
    ktmean = float(rng.uniform(max(0.1, kt1), 1.0))
    scal = ['original', 'basic'][rng.integers(0, 2)]
    es = int(rng.integers(1, 8))
    seed = int(rng.integers(0, 2 ** 31))
    case.note(size=size, octaves=sc, frac=frac, ktmean=ktmean, ktmax=ktmax,
              kt1=kt1, scaling=scal, edges=es, seed=seed)

    def run(s=seed):
        np.random.seed(s)
        kw = {}
        if es != 3 or rng.integers(0, 2):
            kw['edgesmoothing'] = es
        if scal != 'original' or rng.integers(0, 2):
            kw['scaling'] = scal
        return case.call(cf.cloudfield_timeseries, w, sc, size, frac, ktmean,
                         ktmax, kt1, **kw)
    out = run()
    case.ok(out.shape == size, 'shape', f'{out.shape} for {size}')
    # the two stacks, in the order the stream gives them
    np.random.seed(seed)
    a = cloudref.stack(w, sc, size)
    b = cloudref.stack(w, sc, size)
    wants = []
    tie = False
    for f, m in ((a, b), (b, a)):
        if frac == 0:
            mask = np.zeros(size)
        else:
            lim = np.quantile(m, frac)
            tie |= np.sum(np.abs(m - lim) < 1e-12) > 1
            mask = (m <= lim + 1e-13).astype(float)
        e = cloudref.sobel_power(mask)
        if scal == 'original':
            want, how = cloudref.lave(f, mask, e, ktmean, ktmax, kt1)
            margin = np.inf
        else:
            band = cloudref.box((e > 0).astype(float), es) > 1e-9
            want, how, margin = cloudref.basic(f, mask, band, ktmean, ktmax,
                                               kt1)
        wants.append((want, how, margin, mask))
    if tie or any(not np.isfinite(x[0]).all() for x in wants):
        return                                 # outside of the domain
    case.ok(np.isfinite(out).all(), 'finite')
    case.hit('pipeline')
    fit = [x for x in wants if np.allclose(out, x[0], rtol=1e-7, atol=1e-9)]
    near = min(x[2] for x in wants) < 1e-6
    case.sig('pipe', size[0] == 1 or size[1] == 1, len(sc), scal,
             fit[0][1] if fit else None, es, frac in (0, 1))
    case.ok(fit or near, 'pipeline', 'not the composition of its stages',
            got=out, want=wants[0][0])
    if not fit:
        return
    want, how, _, mask = fit[0]
    n1 = np.sum(out == 1)
    case.ok(n1 >= np.sum(mask) and abs(np.sum(mask) - frac * N) <=
            1 + 1e-3 * N, 'clear-fraction', f'{n1} clear of {N} for {frac}')
    if how == 'matched':
        case.close(out.mean(), ktmean, 'mean', rtol=1e-6)
    else:
        case.hit('mean')
    if scal == 'basic':
        case.ok(out.min() >= min(kt1, 1) - 1e-9 and
                out.max() <= max(ktmax, 1 + kt1) + 1e-9, 'bounds',
                f'{out.min()}..{out.max()} for {kt1}, {ktmax}')
    else:
        case.ok(out.min() >= -1e-12, 'bounds', f'minimum {out.min()}')
    if frac == 1:
        case.ok(np.all(out == 1), 'all-clear')
    again = run()
    case.close(again, out, 'repeatable', rtol=0, atol=0)
    if frac < 1:
        other = run(seed + 1)
        case.ok(not np.array_equal(other, out), 'seed-matters')


def errors(case):
    rng = case.rng
    w, sc = octaves(rng)
    size = (20, 20)
    np.random.seed(1)
    for bad in (1.2, -0.1, 1.0001):
        case.raises(ValueError, 'bad-fraction', cf.cloudfield_timeseries, w,
                    sc, size, bad, 0.5, 1.2, 0.2)
        case.raises(ValueError, 'bad-fraction', cf._calc_clear_mask,
                    rng.uniform(size=size), bad)
    for bad in ('Basic', 'lave', '', None):
        case.raises(ValueError, 'bad-scaling', cf.cloudfield_timeseries, w,
                    sc, size, 0.4, 0.5, 1.2, 0.2, scaling=bad)
    case.raises(ValueError, 'weights-mismatch', cf.cloudfield_timeseries,
                np.append(w, 0.1), sc, size, 0.4, 0.5, 1.2, 0.2)
    case.raises(ValueError, 'weights-mismatch', cf._stack_random_field, w,
                sc + [20], size)
    case.raises(ValueError, 'negative-vs', cf._calc_vs_weights,
                np.array(sc), -float(rng.uniform(0.01, 50)))
    case.sig('errors', len(sc))


def stages(case):
    rng = case.rng
    # octave
    size = size_of(rng, True)
    cells = tuple(int(rng.integers(0, 12)) for _ in (0, 1))
    seed = int(rng.integers(0, 2 ** 31))
    np.random.seed(seed)
    base, big = case.call(cf._random_at_scale, cells, size)
    np.random.seed(seed)
    ref = np.random.rand(max(cells[0], 1), max(cells[1], 1))
    case.ok(big.shape == size, 'octave', f'{big.shape}')
    case.close(big, cloudref.bilinear(ref, size), 'octave', atol=1e-9)
    case.ok(big.min() >= 0 and big.max() <= 1, 'octave')
    # stack
    w, sc = octaves(rng)
    w = w * rng.choice([1.0, 2.5])
    np.random.seed(seed)
    st = case.call(cf._stack_random_field, w, sc, size)
    np.random.seed(seed)
    want = cloudref.stack(w, sc, size)
    case.close(st, want, 'stack', atol=1e-9)
    np.random.seed(seed)
    if np.ptp(want) > 1e-6:
        nm = case.call(cf._stack_random_field, w, sc, size, normalize=True)
        case.close(nm, (want - want.min()) / np.ptp(want), 'normalized',
                   atol=1e-8)
    # mask
    f = rng.uniform(size=size) if rng.integers(0, 2) else want
    frac = float(rng.uniform(0, 1))
    m = case.call(cf._calc_clear_mask, f, frac)
    case.ok(set(np.unique(m)) <= {0.0, 1.0}, 'mask-level', 'not 0 or 1')
    if (m == 1).any() and (m == 0).any():
        case.ok(f[m == 1].max() <= f[m == 0].min(), 'mask-level',
                'a cloudy pixel below a clear one')
    else:
        case.hit('mask-level')
    case.ok(abs(m.sum() - frac * f.size) <= 1 + 1e-3 * f.size,
            'mask-fraction', f'{m.sum()} of {f.size} for {frac}')
    case.ok(case.call(cf._calc_clear_mask, f, 0).sum() == 0, 'mask-fraction')
    case.ok(case.call(cf._calc_clear_mask, f, 1).sum() == f.size,
            'mask-fraction')
    # edges
    k = int(rng.integers(1, 8))
    e, band = case.call(cf._find_edges, m, k)
    we = cloudref.sobel_power(m)
    case.close(e, we, 'edges', atol=1e-9)
    wb = cloudref.box((we > 0).astype(float), k) > 1e-9
    case.ok(np.array_equal(np.asarray(band, bool), wb), 'edge-band',
            f'{np.sum(band)} pixels instead of {wb.sum()}')
    if we.any():
        th = float(rng.uniform(0.05, 0.9))
        _, band = case.call(cf._find_edges, m, k, th)
        bx = cloudref.box(we, k)
        bx = bx / bx.max()
        sure = np.abs(bx - th) > 1e-6
        case.ok(np.array_equal(np.asarray(band, bool)[sure],
                               (bx > th)[sure]), 'edge-threshold')
    case.sig('stages', size[0] == 1 or size[1] == 1, len(sc), k,
             round(frac, 1))


def weights(case):
    rng = case.rng
    n = int(rng.integers(2, 13))
    sc = np.arange(1, n + 1)
    vs = float(rng.uniform(0.5, 150))
    w = case.call(cf._calc_vs_weights, sc, vs)
    p = 1 / (-np.log(1 - vs / 180) / 0.6)
    lw = p * np.log(sc)
    want = np.exp(lw - lw.max())
    case.close(w, want / want.sum(), 'vs-weights', rtol=1e-7)
    x = rng.normal(size=(n, int(rng.integers(5, 200)))) \
        * rng.uniform(0.1, 3, n)[:, None]
    if rng.integers(0, 2):
        x[rng.uniform(size=x.shape) < 0.05] = np.nan
        x[:, 0] = 1.0
    w = case.call(cf._calc_wavelet_weights, x)
    pw = np.array([np.mean(r[~np.isnan(r)] ** 2) for r in x])
    case.close(w, pw / pw.sum(), 'wavelet-weights', rtol=1e-9)
    case.sig('weights', n, round(vs / 20))


def scaling(case):
    rng = case.rng
    size = size_of(rng, True)
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    f = cloudref.stack(*octaves(rng), size)
    if np.ptp(f) < 1e-3:
        f = rng.uniform(size=size)
    clear = (rng.uniform(size=size) < rng.uniform(0, 0.6)).astype(float)
    edge = rng.uniform(size=size) < rng.uniform(0, 0.4)
    if rng.integers(0, 2):                     # overlapping or not
        edge &= clear == 0
    edge = edge if rng.integers(0, 2) else edge * rng.uniform(0.5, 20, size)
    if np.sum(clear == 0) < 8 or np.ptp(f[clear == 0]) < 1e-6:
        clear[:] = 0
    ktmax = float(rng.uniform(1.01, 1.6))
    kt1 = float(rng.uniform(0.02, 0.5))
    ktmean = float(rng.uniform(0.05, 1.2))
    case.note(size=size, clear=clear.mean(), edge=np.mean(edge > 0),
              ktmean=ktmean, ktmax=ktmax, kt1=kt1)
    cl, ed = clear > 0, edge > 0
    cloud = ~(cl | ed)
    # original
    kw = {}
    q = 0.99
    if rng.integers(0, 2):
        q = kw['max_quant'] = float(rng.uniform(0.8, 1))
    f0 = f.copy()
    out = case.call(cf._scale_field_lave, f, clear, edge, ktmean, ktmax, kt1,
                    **kw)
    want, how = cloudref.lave(f0, clear, edge, ktmean, ktmax, kt1, q)
    case.sig('lave', how, bool(cl.any()), bool(ed.any()), bool((cl & ed).any()))
    case.close(out, want, 'lave', rtol=1e-8, atol=1e-10)
    case.ok(np.all(out[cl] == 1), 'clear-value')
    e = out[ed & ~cl]
    case.ok(np.all((e >= 1 - 1e-12) & (e <= ktmax + 1e-12)), 'enhancement')
    if how == 'matched':
        case.close(out.mean(), ktmean, 'lave-mean', rtol=1e-8)
    else:
        c = out[cloud]
        case.ok(np.all((c >= 0) & (c <= 1)), 'lave-fallback')
    o = np.argsort(f[cloud])
    case.ok(np.all(np.diff(out[cloud][o]) <= 1e-12), 'rank',
            'thicker cloud is not darker')
    # basic
    kw, q, flip, sm = {}, 0.999, False, None
    if rng.integers(0, 2):
        q = kw['quant'] = float(rng.uniform(0.9, 1))
    if rng.integers(0, 2):
        flip = kw['flipdistr'] = True
    if rng.integers(0, 2):
        sm = kw['cs_smoothing'] = float(rng.uniform(0.3, 0.95))
    out = case.call(cf._scale_field_basic, f, clear, edge, ktmean, ktmax, kt1,
                    **kw)
    want, how, margin = cloudref.basic(f0, clear, edge, ktmean, ktmax, kt1, q,
                                       flip, sm)
    case.sig('basic', how, flip, sm is None, bool((cl & ed).any()))
    if margin > 1e-6:
        case.close(out, want, 'basic', rtol=1e-8, atol=1e-10)
    if flip:
        case.hit('flip')
    if how == 'matched':
        case.close(out.mean(), ktmean, 'basic-mean', rtol=1e-8)
    elif margin > 1e-6:
        f2 = out[cloud]
        ok = (f2 >= kt1 - 0.5) & (f2 <= 1.5)
        case.ok(np.all(ok), 'basic-fallback')
    if sm is None:
        case.ok(np.all(out[cl] == 1), 'clear-value')
    else:
        case.close(out[cl], want[cl], 'smoothed-clear', rtol=1e-8)
    case.close(f, f0, 'lave', rtol=0, atol=0, msg='the field was changed')


QUICK_X = 2
WORKLOADS = [
    ('pipeline', pipeline, 400, 6000),
    ('errors', errors, 10, 60),
    ('stages', stages, 300, 6000),
    ('weights', weights, 60, 600),
    ('scaling', scaling, 300, 6000),
]
