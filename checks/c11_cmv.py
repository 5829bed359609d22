import numpy as np
import pandas as pd

from solarspatialtools import cmv
from mon import ref, cmvref
from checks.c12_cmvqc import frame, scene
from mon.core import Skip
from mon.core import labels

ID = 'C11'
RULE = ('Frozen patterns that cross a cluster with a known velocity must give '
        'that velocity; arbitrary scenes (noise, faulty sensors, real data) '
        'are re-estimated after moving, turning, stretching and relabelling '
        'the cluster or the clock.  Distinct = (workload, method, backend, '
        'transformation, octant).')
REQUIRED = ['recovered:jamaly:xcorr', 'recovered:gagne:xcorr',
            'recovered:jamaly:tf', 'recovered:gagne:tf', 'reference',
            'rotate', 'translate', 'scale', 'stretch', 'permute', 'table', 'relabel',
            'gain', 'reverse', 'mirror']
ASSUMES = ['Equivariance of the direction is judged where the variance '
           'ellipse is not round (eigenvalue ratio below 0.9).']


def recovery(case):
    rng = case.rng
    method = ['jamaly', 'gagne'][case.index % 2]
    backend = ['xcorr', 'tf'][case.index // 2 % 2]
    dt = float(rng.choice([1, 2, 10, 0.5]))
    v = float(rng.uniform(2, 30))
    th = rng.uniform(0, 2 * np.pi)
    u = np.array([np.cos(th), np.sin(th)])
    p = np.array([-u[1], u[0]])
    m = int(rng.integers(7, 12))
    if rng.integers(0, 12) == 0:
        m = int(rng.integers(12, 19))
    if backend == 'xcorr':
        # delays that are whole samples: the estimate has to be exact
        n = int(rng.integers(300, 500) if rng.integers(0, 15)
                else rng.integers(1500, 4000))
        k = rng.choice(np.arange(-9, 10), m, replace=False)
        along = k * v * dt
    else:
        n = int(rng.integers(900, 1300))
        dt = float(rng.choice([1, 2]))
        along = rng.uniform(-9, 9, m) * v * dt
    across = rng.uniform(-1, 1, m) * v * dt * 9
    P = along[:, None] * u + across[:, None] * p + rng.choice([0, 4e5])
    A = cmvref.field(rng, n, dt, P - P.mean(axis=0), u, v)
    ids = labels(rng, m)
    ts = frame(A, dt, ids)
    pos = pd.DataFrame(P, index=ids, columns=['E', 'N'])
    opt = {'mincorr': 0.5} if method == 'jamaly' else None
    case.note(v=v, th=th, dt=dt, m=m, n=n, method=method, backend=backend)
    ts = ts[[ids[j] for j in rng.permutation(m)]]
    out = case.call(cmv.compute_cmv, ts, pos, None, method, opt, backend)
    vel, ang, w = out
    good = sum(f.name == 'GOOD' for f in w.pair_flag)
    case.note(speed=vel, angle=ang, good_pairs=good)
    if good < 6:
        raise Skip
    tv, ta = (0.02, 0.02) if backend == 'xcorr' else (0.6, 0.2)
    if backend == 'xcorr':
        # whole-sample delays, except where the window cuts the pattern
        d = np.array([(P[ids.index(_k(ids, b))] - P[ids.index(_k(ids, a))])
                      @ u / v for a, b in w.allpairs])
        gd = np.array([f.name == 'GOOD' for f in w.pair_flag])
        off = np.abs(w.pair_lag - d)[gd] > 1e-6
        if off.any():
            tv, ta = 0.3, 0.3
        else:
            tv, ta = 1e-3, 1e-3
            case.sig('exact', method)
    case.ok(abs(vel / v - 1) < tv and cmvref.ang(ang, th) < ta,
            f'recovered:{method}:{backend}',
            f'{vel} m/s at {ang} instead of {v} at {th} (tol {tv})')
    # a single reference, or some, sees the same motion
    if method == 'jamaly':
        q = int(rng.integers(1, m))
        rr = ids[0] if rng.integers(0, 2) else \
            [ids[j] for j in rng.choice(m, q, replace=False)]
        v2, a2, w2 = case.call(cmv.compute_cmv, ts, pos, rr, method, opt,
                               backend)
        g2 = sum(f.name == 'GOOD' for f in w2.pair_flag)
        if g2 >= 5:
            tv = max(tv, 0.02) if tv < 0.2 else 0.6
            case.ok(abs(v2 / v - 1) < tv and cmvref.ang(a2, th) < tv,
                    'reference', f'{v2} at {a2} instead of {v} at {th} '
                    f'from reference {rr}')
    case.sig('rec', method, backend, int(th // (np.pi / 4)))


def _k(ids, a):
    for i in ids:
        if str(i) == str(a):
            return i


def equivariance(case):
    rng = case.rng
    kind, ts, pos = scene(rng)
    pos = pos.astype(float)
    method = ['jamaly', 'gagne'][case.index % 2]
    backend = ['xcorr', 'tf', 'xcorr'][case.index % 3]
    opt = {'minvelocity': 0.5, 'maxvelocity': 60.0,
           'mincorr': float(rng.choice([0.5, 0.8]))} \
        if method == 'jamaly' else {'ktlim': 0.35}
    base = case.call(cmv.compute_cmv, ts, pos, None, method, opt, backend)
    v0, a0, w0 = base
    flags = {frozenset((str(a), str(b))): f.name
             for (a, b), f in zip(w0.allpairs, w0.pair_flag)}
    case.note(kind=kind, method=method, backend=backend, speed=v0, angle=a0,
              flags=sorted(set(flags.values())))
    sound = w0.pair_lag is not None
    if sound:
        good = np.array([f.name == 'GOOD' for f in w0.pair_flag])
        P = {str(k): pos.loc[k].values for k in pos.index}
        vec = np.array([P[str(b)] - P[str(a)] for a, b in w0.allpairs])
        if method == 'jamaly':
            vv, _, _, cond = cmvref.jamaly(vec[good], w0.pair_lag[good])
            big = np.abs(vec[good] / w0.pair_lag[good][:, None]).max()
            sharp = cond < 0.9 and vv > 1e-2 * big and good.sum() > 2
        else:
            sharp = cmvref.gagne(vec[good], w0.pair_lag[good])[2] > 1e-4
        # delays that are all rounding noise carry no velocity
        sharp = sharp and np.abs(w0.pair_lag[good]).max(initial=0) > 1e-6
    else:
        sharp = True

    def same(clause, out, speed=1.0, turn=0.0, names=None, mirror=False):
        v, a, w = out
        # the quality of a pair does not depend on the viewpoint
        for (x, y), f in zip(w.allpairs, w.pair_flag):
            x, y = str(x), str(y)
            if names:
                x, y = names[x], names[y]
            want = flags[frozenset((x, y))]
            case.ok((f.name == 'GOOD') == (want == 'GOOD'), clause,
                    f'pair {x},{y}: {f.name} instead of {want}')
        case.ok(w.flag.name == w0.flag.name or not sharp, clause,
                f'{w.flag} instead of {w0.flag}')
        if not sharp:
            return
        case.close(v, v0 * speed, clause, rtol=5e-3, atol=1e-9, msg='speed')
        if sound:
            t = (-a0 if mirror else a0) + turn
            case.ok(cmvref.ang(a, t) < 5e-3, clause,
                    f'angle {a} instead of {t % (2 * np.pi)}')
        case.sig(clause, method, backend, kind)

    def run(ts, pos, opt=opt):
        return case.call(cmv.compute_cmv, ts, pos, None, method, opt,
                         backend)

    alpha = float(rng.uniform(0, 2 * np.pi))
    R = np.array([[np.cos(alpha), -np.sin(alpha)],
                  [np.sin(alpha), np.cos(alpha)]])
    c0 = pos.values.mean(axis=0)
    same('rotate', run(ts, pd.DataFrame((pos.values - c0) @ R.T,
                                        index=pos.index, columns=['E', 'N'])),
         turn=alpha)
    same('translate', run(ts, pos + np.array([3e5, -2e5])))
    same('mirror', run(ts, pd.DataFrame((pos.values - c0) * [1, -1],
                                        index=pos.index, columns=['E', 'N'])),
         mirror=True)
    c = float(10 ** rng.uniform(-1, 1))
    o = dict(opt)
    for q in ('minvelocity', 'maxvelocity'):
        if q in o:
            o[q] = o[q] * c
    same('scale', run(ts, (pos - c0) * c, o), speed=c)
    if backend == 'xcorr':
        t = ts.copy()
        k = float(rng.choice([0.5, 2, 4]))
        t.index = t.index.as_unit("ns")
        t.index = t.index[0] + (t.index - t.index[0]) * k
        o = dict(opt)
        for q in ('minvelocity', 'maxvelocity'):
            if q in o:
                o[q] = o[q] / k
        same('stretch', run(t, pos, o), speed=1 / k)
        # played backwards the pattern comes from the other side
        r = ts.iloc[::-1].copy()
        r.index = ts.index
        same('reverse', run(r, pos), turn=np.pi)
    j = rng.permutation(len(pos))
    same('permute', run(ts, pos.iloc[j]))
    j = rng.permutation(len(pos))
    same('permute', run(ts.iloc[:, j], pos))
    # tables of places come with further columns
    p = pos.copy()
    if rng.integers(0, 2):
        p['zone'] = 32.0
    else:
        p['height'] = rng.uniform(-500, 500, len(p))
    if rng.integers(0, 2):
        p['name'] = [f'unit {q}' for q in p.index]
    same('table', run(ts, p))
    names = {f'n{i}': str(k) for i, k in enumerate(pos.index)}
    back = {v: k for k, v in names.items()}
    t, p = ts.copy(), pos.copy()
    t.columns = [back[str(q)] for q in ts.columns]
    p.index = [back[str(q)] for q in pos.index]
    same('relabel', run(t, p), names=names)
    if method == 'gagne':
        g = ts * float(rng.uniform(1.0, 2.0))
        f2 = run(g, pos, {'ktlim': 0.0})
        f1 = run(ts, pos, {'ktlim': 0.0})
        if sharp and [x.name for x in f1[2].pair_flag] == \
                [x.name for x in f2[2].pair_flag]:
            case.close(f2[0], f1[0], 'gain', rtol=1e-3, atol=1e-9)


WORKLOADS = [('recovery', recovery, 160, 6000),
             ('equivariance', equivariance, 160, 6000)]
