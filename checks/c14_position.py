import warnings

import numpy as np
import pandas as pd

from solarspatialtools import cmv, field, signalproc, spatial
from mon import ref as R, cmvref
from mon.core import Skip
from mon.core import labels
from mon.core import clock, size

ID = 'C14'
RULE = ('Plants of 9..30 units watched under two cloud motions, one unit '
        'listed at a wrong place; the prediction is recomputed from the '
        'delays and coherences by an independent formula for every selection '
        'mode, and must point at the unit\'s real place.  Distinct = (mode, '
        'method, selection size, faults, units).')
REQUIRED = ['position:coherence', 'position:global_coherence',
            'position:distance', 'position:all', 'recovered', 'selection',
            'fulldata', 'preavg', 'column-order', 'case-order', 'translate',
            'rotate', 'vector-types', 'auto-cmv', 'bad-mode', 'default',
            'extra-columns', 'ties', 'table']
ASSUMES = ['The pairwise delays themselves are judged by C08.',
           'Where units tie at the selection limit any of them '
           'may be taken.',
           'The reference itself counts as one of the selected units: its '
           'perfect coherence is left out of the average in the coherence '
           'modes.']


def frame(a, dt, cols):
    idx = clock(len(a), dt)
    return pd.DataFrame(a, index=idx, columns=cols)


def plant(rng, faults=True):
    m = int(rng.integers(9, 26))
    dt = float(rng.choice([1, 5, 10]))
    v = rng.uniform(4, 15, 2) * 10 ** rng.choice([-.4, 0, 0, .2, .6])
    t1 = rng.uniform(0, 2 * np.pi)
    t2 = t1 + rng.choice([-1, 1]) * rng.uniform(np.pi / 4, 3 * np.pi / 4)
    th = np.array([t1, t2])
    L = v.min() * dt * rng.uniform(2, 5)
    side = int(np.ceil(np.sqrt(m)))
    g = np.array([(i % side, i // side) for i in range(m)], float)
    regular = faults and rng.integers(0, 3) == 0
    P = (g + rng.uniform(-0.2, 0.2, g.shape) * (not regular)) * L
    ids = labels(rng, m)
    n = size(rng, 360, 700, 2500, .06)
    dfs, vecs = [], []
    for k in range(2):
        u = np.array([np.cos(th[k]), np.sin(th[k])])
        A = cmvref.field(rng, n, dt, P, u, v[k],
                         noise=rng.choice([0, 0.01, 0.05]) if faults else 0)
        if faults and rng.integers(0, 4) == 0:
            A[:, rng.integers(1, m)] = rng.uniform(0.2, 1, n)
        if faults and rng.integers(0, 6) == 0:    # a dead sensor, or gaps
            q = rng.integers(1, m)
            if rng.integers(0, 2):
                A[:, q] = 0
            else:
                A[rng.integers(0, n, 3), q] = np.nan
        dfs.append(frame(A, dt, ids))
        vecs.append(v[k] * u)
    return m, dt, P, ids, dfs, np.array(vecs), L


def formula(case, dfs, pos, ref, vecs, mode, ndown, kw):
    """The prediction from the pairwise delays, step by step."""
    ids = list(pos.index)
    P = pos[['E', 'N']].values.astype(float)
    r = P[ids.index(ref)]
    out = []
    full = []
    for df, c in zip(dfs, vecs):
        speed = np.hypot(*c)
        u = np.array(c) / speed
        d, ex = case.call(signalproc.compute_delays_tf, df[ref], df[ids],
                          navgs=kw['navgs'], coh_limit=kw['coh_limit'],
                          freq_limit=kw['freq_limit'],
                          method=kw['delay_method'])
        d, coh = np.asarray(d), np.asarray(ex['mean_coh'])
        # distance travelled minus the listed one, along the motion
        err = -d * speed - (r - P) @ u
        full.append((d, coh, err, (r - P) @ u))
    coh = [f[1] for f in full]
    N = len(ids)
    gap = 1.0
    if mode in ('coherence', 'preavg'):
        sel = []
        for c in coh:
            o = np.argsort(c, kind='stable')[::-1]
            s = np.sort(c)[::-1]
            gap = min(gap, s[0] - s[1])
            if ndown < N:
                gap = min(gap, s[ndown - 1] - s[ndown])
            sel.append(o[1:ndown])
    elif mode == 'global_coherence':
        c = coh[0] ** 2 + coh[1] ** 2
        o = np.argsort(c)[::-1]
        s = np.sort(c)[::-1]
        gap = s[0] - s[1]
        if ndown < N:
            gap = min(gap, s[ndown - 1] - s[ndown])
        sel = [o[1:ndown]] * 2
    elif mode == 'distance':
        q = np.hypot(*(P - r).T)
        o = np.argsort(q)
        s = np.sort(q)
        if ndown < N:
            gap = (s[ndown] - s[ndown - 1]) / s[-1]
        sel = [o[:ndown]] * 2
    else:
        sel = [np.arange(N)] * 2
    if gap < 1e-9:
        return None, sel, full
    return solve(full, sel, vecs, r), sel, full


def solve(full, sel, vecs, r):
    e = [np.nanmean(f[2][s]) for f, s in zip(full, sel)]
    # the point whose distance along each motion is e
    M = np.array([np.array(c) / np.hypot(*c) for c in vecs])
    return np.linalg.solve(M, e) + r


def tied(case, mode, full, sel, data, listed, ref):
    """Units tie at the limit: any of them may be taken, but as many as asked
    for, and none that ranks behind one left out."""
    names = list(listed.index)
    P = listed[['E', 'N']].values.astype(float)
    out = []
    for q in range(2):
        if mode == 'distance':
            score = -np.hypot(*(P - P[names.index(ref)]).T)
        elif mode == 'global_coherence':
            score = full[0][1] ** 2 + full[1][1] ** 2
        else:
            score = full[q][1]
        got = [names.index(i) for i in data[q].index]
        case.ok(len(set(got)) == len(got) == len(sel[q]), 'selection',
                f'{len(got)} units taken instead of {len(sel[q])}')
        rest = sorted(np.delete(score, got))[::-1]
        if mode != 'distance':
            rest = rest[1:]           # the reference (or one just as good)
        if len(rest) and len(got):
            tol = 1e-9 * np.abs(score).max()
            case.ok(min(score[got]) >= rest[0] - tol, 'selection',
                    f'{data[q].index} though others rank higher')
        out.append(got)
    case.hit('ties')
    return out


def predict(case):
    rng = case.rng
    m, dt, P, ids, dfs, vecs, L = plant(rng)
    ref = ids[rng.integers(0, m)]
    listed = pd.DataFrame(P + rng.choice([0, 1e5]), index=ids,
                          columns=['E', 'N'])
    if rng.integers(0, 2):      # swap the listing of two units
        other = ids[rng.integers(0, m)]
        a, b = listed.loc[ref].copy(), listed.loc[other].copy()
        listed.loc[ref], listed.loc[other] = b.values, a.values
    mode = ['coherence', 'global_coherence', 'distance', 'all'][
        case.index % 4]
    kw = dict(navgs=int(rng.choice([5, 3, 8])),
              coh_limit=float(rng.choice([0.6, 0.3, 0.8])),
              freq_limit=float(0.5 / dt * rng.uniform(0.1, 0.5)),
              delay_method=['multi', 'fit'][rng.integers(0, 2)])
    nd = int(rng.integers(3, m + 1))
    if rng.integers(0, 3) == 0:
        listed = listed.iloc[rng.permutation(m)]
    case.note(units=m, dt=dt, mode=mode, ndownsel=nd, ref=ref, **kw)
    want, sel, full = formula(case, dfs, listed, ref, vecs, mode, nd, kw)
    tie = want is None
    if not tie and not np.all(np.isfinite(want)):
        raise Skip
    tol = 1e-5 * (L * m) + 1e-6

    def run(d=dfs, p=listed, c=vecs, mode=mode, **k):
        return case.call(field.compute_predicted_position, d, p, ref, c,
                         mode=mode, ndownsel=nd, **dict(kw, **k))
    pos, data = run()
    if tie:
        sel = tied(case, mode, full, sel, data, listed, ref)
        want = solve(full, sel, vecs, listed.loc[ref].values.astype(float))
        case.close(np.ravel(pos), want, f'position:{mode}', rtol=1e-9,
                   atol=tol)
        case.sig('tie', mode)
        return
    case.close(np.ravel(pos), want, f'position:{mode}', rtol=1e-9, atol=tol)
    case.ok(len(data) == 2, 'fulldata')
    names = list(listed.index)
    for q in range(2):
        s = [names[j] for j in sel[q]]
        case.ok(sorted(map(str, data[q].index)) == sorted(map(str, s)),
                'selection', f'{list(data[q].index)} instead of {s}')
        d, coh, err, plan = full[q]
        for i in data[q].index:
            j = names.index(i)
            case.close(data[q].loc[i, 'delay'], d[j], 'fulldata', rtol=1e-6,
                       atol=1e-6 * dt)
            case.close(data[q].loc[i, 'coh'], coh[j], 'fulldata', rtol=1e-9)
            case.close(data[q].loc[i, 'error_dist'], err[j], 'fulldata',
                       rtol=1e-6, atol=tol)
            case.close(data[q].loc[i, 'plan_dist'], plan[j], 'fulldata',
                       rtol=1e-6, atol=tol)
    if mode == 'coherence':
        case.close(run(mode='preavg')[0], pos, 'preavg', rtol=1e-12)
        d = case.call(field.compute_predicted_position, dfs, listed, ref,
                      vecs, freq_limit=kw['freq_limit'])
        e = case.call(field.compute_predicted_position, dfs, listed, ref,
                      vecs, mode='coherence', ndownsel=8, navgs=5,
                      coh_limit=0.6, delay_method='multi',
                      freq_limit=kw['freq_limit'])
        case.close(d[0], e[0], 'default', rtol=1e-12)
    # the columns of the recordings may come in any order, with extra ones
    o = [df.iloc[:, rng.permutation(m)] for df in dfs]
    case.close(run(o)[0], pos, 'column-order', rtol=1e-9, atol=tol)
    x = [df.assign(zz=rng.uniform(0, 1, len(df))) for df in o]
    case.close(run(x)[0], pos, 'extra-columns', rtol=1e-9, atol=tol)
    case.close(run(dfs[::-1], c=vecs[::-1])[0], pos, 'case-order', rtol=1e-9,
               atol=tol)
    # the table of positions may hold more (the zone that latlon2utm adds,
    # remarks) and have its columns in another order
    full_table = [listed.assign(zone=33.0), listed[['N', 'E']],
                  listed.assign(lag=rng.normal(size=m) * 1e4)[['lag', 'N',
                                                               'E']],
                  listed.assign(kind='combiner')][case.index // 4 % 4]
    case.close(np.ravel(run(p=full_table)[0]).astype(float), pos, 'table',
               rtol=1e-9, atol=tol, msg=f'columns {list(full_table.columns)}')
    if full_table.columns[0] != 'E' or case.index % 3 == 0:
        auto = case.call(field.compute_predicted_position, dfs,
                         listed.assign(zone=33.0), ref, None, mode=mode,
                         ndownsel=nd, **kw)[0]
        plain = case.call(field.compute_predicted_position, dfs, listed, ref,
                          None, mode=mode, ndownsel=nd, **kw)[0]
        case.close(np.ravel(auto).astype(float), plain, 'table', rtol=1e-9,
                   atol=tol, msg='with the zone of latlon2utm')
    sh = np.array([1000., -3000.])
    case.close(run(p=listed + sh)[0], pos + sh, 'translate', rtol=1e-9,
               atol=tol)
    t = rng.uniform(0, 6.28)
    M = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    c0 = listed.values.mean(axis=0)
    p2 = pd.DataFrame((listed.values - c0) @ M.T, index=listed.index,
                      columns=['E', 'N'])
    case.close(run(p=p2, c=vecs @ M.T)[0], (pos - c0) @ M.T, 'rotate',
               rtol=1e-7, atol=tol)
    lst = [tuple(q) for q in vecs]
    case.close(run(c=lst)[0], pos, 'vector-types', rtol=1e-12)
    case.raises(ValueError, 'bad-mode', field.compute_predicted_position,
                dfs, listed, ref, vecs, mode='nearest')
    case.sig(mode, kw['delay_method'], nd == m, m)


def recovered(case):
    """A wrongly listed unit is found near where it really is."""
    rng = case.rng
    m, dt, P, ids, dfs, vecs, L = plant(rng, faults=False)
    j = int(rng.integers(0, m))
    ref = ids[j]
    listed = pd.DataFrame(P.copy(), index=ids, columns=['E', 'N'])
    k = int(rng.integers(0, m))
    listed.loc[ref] = P[k]
    listed.loc[ids[k]] = P[j]
    mode = ['coherence', 'global_coherence'][case.index % 2]
    method = ['multi', 'fit'][case.index // 2 % 2]
    nd = m
    case.note(units=m, mode=mode, method=method, listed=P[k], real=P[j])
    pos, _ = case.call(field.compute_predicted_position, dfs, listed, ref,
                       vecs, mode=mode, ndownsel=nd, delay_method=method,
                       freq_limit=0.1 / dt)
    # delays from tapered segments come out short by up to a third, so a
    # unit at the edge is pulled towards the middle of the plant
    extent = np.hypot(*(P - P.mean(axis=0)).T).max()
    off = np.hypot(*(np.ravel(pos) - P[j]))
    case.note(error=off, extent=extent)
    case.ok(off < 0.45 * extent + 0.5 * L, 'recovered',
            f'{np.ravel(pos)} instead of {P[j]} (plant radius {extent})')
    case.sig('rec', mode, method, m)
    # without motion vectors they are estimated from the same data
    est = []
    for d in dfs:
        s, t, _ = case.call(cmv.compute_cmv, d, listed, method='jamaly')
        est.append((s * np.cos(t), s * np.sin(t)))
    if min(np.hypot(*e) for e in est) > 0:
        cr = abs(est[0][0] * est[1][1] - est[0][1] * est[1][0]) / (
            np.hypot(*est[0]) * np.hypot(*est[1]))
        if cr > 0.05:
            a, _ = case.call(field.compute_predicted_position, dfs, listed,
                             ref, mode=mode, freq_limit=0.1 / dt)
            b, _ = case.call(field.compute_predicted_position, dfs, listed,
                             ref, np.array(est), mode=mode,
                             freq_limit=0.1 / dt)
            case.close(a, b, 'auto-cmv', rtol=1e-6, atol=1e-3 * L)


WORKLOADS = [('predict', predict, 200, 5000),
             ('recovered', recovered, 80, 2000)]
