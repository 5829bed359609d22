import itertools

import numpy as np
import pandas as pd

from solarspatialtools import cmv, field, spatial
from mon import cmvref
from mon.core import Skip

ID = 'C31'
RULE = ('Plants of 12..25 units (grouped under inverters) whose plan has some '
        'units listed at each other\'s places are watched under 2..4 frozen '
        'cloud motions; the documented workflow (estimate the motions, '
        'predict every unit from every suitable pair of motions, assign '
        'within the groups, cascade, remap, repeat) must end at the real '
        'layout.  Every intermediate remap is traced.  Distinct = (units, '
        'wrong units, motions, motions estimated or given, iterations).')
REQUIRED = ['recovered', 'recovered:auto', 'one-to-one', 'untouched', 'trace',
            'converged', 'true-plan-kept', 'table-follows']
ASSUMES = ['At most four units of a plant are listed wrongly and the clouds '
           'cross one spacing of units in 2..3.5 samples.  '
           'A single plant that does not settle is tolerated, two of three '
           'are not.']


def frame(a, dt, cols, start):
    idx = pd.to_datetime(start) + pd.to_timedelta(
        np.round(np.arange(len(a)) * dt * 1e9).astype('int64'), unit='ns')
    return pd.DataFrame(a, index=idx, columns=cols)


def scene(rng, big):
    side, rows = int(rng.integers(4 + big, 6)), int(rng.integers(3 + big, 6))
    m = side * rows
    dt = float(rng.choice([1, 5, 10]))
    n = int(rng.integers(500, 800))
    K = int(rng.integers(2, 4))
    v = rng.uniform(5, 15) * rng.uniform(0.8, 1.25, K)
    while True:
        th = rng.uniform(0, 2 * np.pi, K)
        pairs = [(a, b) for a, b in itertools.combinations(range(K), 2)
                 if abs(np.sin(th[a] - th[b])) > np.sin(np.pi / 3)]
        if pairs:
            break
    L = v.mean() * dt * rng.uniform(2, 3.5)
    P = np.array([(i % side, i // side) for i in range(m)], float)
    P = (P + rng.uniform(-0.15, 0.15, P.shape)) * L
    off = rng.choice([0., 4e5]) * np.array([1., 9.5])
    names = [f'C-{j % rows:02d}-{j // rows}' for j in range(m)]
    if rng.integers(0, 3) == 0:
        names = [int(q) for q in rng.permutation(200)[:m]]
    ids = [names[j] for j in rng.permutation(m)]
    true = pd.DataFrame(P + off, index=ids, columns=['E', 'N'])
    dfs, vec = {}, {}
    for k in range(K):
        u = np.array([np.cos(th[k]), np.sin(th[k])])
        A = cmvref.field(rng, n, dt, P, u, v[k], noise=rng.choice([0, 0.003]))
        key = 'abcd'[k]
        df = frame(A, dt, ids, f'2019-0{k + 3}-01 1{k}:00')
        dfs[key] = df[[ids[j] for j in rng.permutation(m)]]
        vec[key] = v[k] * u
    pairs = [('abcd'[a], 'abcd'[b]) for a, b in pairs]
    return m, dt, L, true, dfs, vec, pairs


def workflow(case, plan, dfs, vec, pairs, groups, kw, mode, passes=6):
    """The loop of the demonstration of the whole process."""
    ids = list(plan.index)
    remap = sorted((r, r) for r in ids)
    cur = plan.copy()
    seen = [remap]
    for it in range(passes):
        pred = pd.DataFrame(index=ids, columns=['E', 'N'], dtype=float)
        for r in ids:
            p = [case.call(field.compute_predicted_position,
                           [dfs[a], dfs[b]], cur, r, [vec[a], vec[b]],
                           mode=mode, **kw)[0] for a, b in pairs]
            pred.loc[r] = np.mean(p, axis=0)
        new = []
        for g in groups:
            r, t = case.call(field.assign_positions, cur.loc[g], pred.loc[g])
            case.ok(sorted(a for a, b in r) == sorted(b for a, b in r)
                    == sorted(g), 'one-to-one')
            case.close(t[['E', 'N']].values,
                       [cur.loc[dict(r)[q]].values for q in t.index],
                       'table-follows')
            new += list(r)
        direct = field.remap_positions(cur, new)
        new = case.call(field.cascade_remap, remap, new)
        nxt = case.call(field.remap_positions, plan, new)
        # the remap of a remap, in terms of the plan, is the two in turn
        case.close(nxt.loc[ids].values, direct.loc[ids].values, 'trace',
                   rtol=1e-12)
        case.ok(sorted(map(repr, (a for a, b in new)))
                == sorted(map(repr, (b for a, b in new)))
                == sorted(map(repr, ids)), 'one-to-one')
        if new in seen:
            return cur, new, it, new == remap
        seen.append(new)
        remap, cur = new, nxt
    return cur, remap, passes, False


def layout(case):
    missed = []
    for q in range(3):
        try:
            one(case, case.index * 3 + q, missed)
        except Skip:
            continue
    for auto in (0, 1):
        clause = 'recovered:auto' if auto else 'recovered'
        bad = [x for a, x in missed if a == auto and x]
        if any(a == auto for a, x in missed):
            case.ok(len(bad) < 2, clause, 'units do not end up where they '
                    'are', bad=bad)
    bad = [x for a, x in missed if x]
    case.ok(len(bad) < 2, 'recovered', 'two of three plants are not '
            'recovered', bad=bad)


def one(case, index, missed):
    rng = case.rng
    auto = bool(case.index % 2)
    m, dt, L, true, dfs, vec, pairs = scene(rng, auto)
    ids = list(true.index)
    clean = index % 8 == 6
    # groups of units; the mistakes stay within a group
    ng = int(rng.choice([1, 1, 2, 3]))
    groups = [[ids[j] for j in g]
              for g in np.array_split(rng.permutation(m), ng)]
    perm = {r: r for r in ids}
    if not clean:
        g = groups[int(rng.integers(0, ng))]
        q = int(rng.integers(2, min(4, len(g)) + 1))
        who = [g[j] for j in rng.choice(len(g), q, replace=False)]
        if q == 4 and rng.integers(0, 2):     # two swaps instead of a ring
            for a, b in (who[:2], who[2:]):
                perm[a], perm[b] = b, a
        else:
            for a, b in zip(who, who[1:] + who[:1]):
                perm[a] = b
    plan = pd.DataFrame(true.loc[[perm[r] for r in ids]].values, index=ids,
                        columns=['E', 'N'])
    plan = plan.loc[[ids[j] for j in rng.permutation(m)]]
    if rng.integers(0, 3) == 0:
        dfs = {k: d.assign(other=rng.uniform(0, 1, len(d)))
               for k, d in dfs.items()}
    cl = dict(vec)
    if auto:
        for k, d in dfs.items():
            s, a, w = case.call(cmv.compute_cmv, d, plan, method='jamaly')
            if sum(f.name == 'GOOD' for f in w.pair_flag) < 20:
                raise Skip
            cl[k] = np.array(spatial.pol2rect(s, a))
            # the mistakes in the plan disturb the estimate
            if np.hypot(*(cl[k] - vec[k])) > 0.2 * np.hypot(*vec[k]):
                raise Skip
    kw = dict(freq_limit=0.2 / dt)
    mode = 'coherence' if index % 4 else 'global_coherence'
    case.note(m=m, dt=dt, groups=ng, mode=mode, auto=auto,
              wrong=[(a, b) for a, b in perm.items() if a != b])
    cur, remap, it, conv = workflow(case, plan, dfs, cl, pairs, groups, kw,
                                    mode)
    err = np.hypot(*(cur.loc[ids] - true).values.T).max() / L
    wrong = ''
    if err > 1e-9:
        wrong = f'units end up {err} spacings from where they are: ' \
            f'{[p for p in remap if p[1] != perm[p[0]]]}'
    elif not conv:
        wrong = 'the layout did not settle'
    missed.append((auto, wrong))
    if not wrong:
        case.hit('converged')
        case.hit('untouched')
        if clean:
            case.hit('true-plan-kept')
            if it:
                missed[-1] = (auto, 'a correct plan was changed')
    case.sig(m, sum(a != b for a, b in perm.items()), len(vec), auto, it)


WORKLOADS = [('layout', layout, 28, 400)]
