"""Names of sensors and dates of records carry no meaning."""
import re

import numpy as np
import pandas as pd

from solarspatialtools import cmv, field, spatial
from mon import core, hooks, purity
from checks import c28_purity as c28
from checks import c30_concurrency as c30
from checks.c33_storage import flat, same, tolerance, firm, attempt

ID = 'C34'
RULE = ('Public calls are harvested from the workloads of the other '
        'properties; then each call is repeated with the sensors renamed '
        '(in all tables and arguments alike, to names of another order), '
        'with the record moved to another date, and with its time stamps '
        'expressed in another zone; names and dates of the result are put '
        'back and the results are compared.  Distinct = (function, kinds of '
        'arguments, change).')
REQUIRED = ['misleading', 'renamed', 'numbered', 'mixed', 'moved', 'zone', 'outcome']
ASSUMES = ['Functions that draw from the global random stream, change their '
           'argument by design or write files are not driven.',
           'Records are moved by whole weeks; daily quantiles and averaging '
           'windows follow the clock of the record and are not expressed in '
           'another zone.',
           'The columns E, N, lat, lon, zone and the like are not names of '
           'sensors.']
PLAN = c28.PLAN
MEAN = {'E', 'N', 'lat', 'lon', 'zone', 'x', 'y', 'z', 'dx', 'dy', 'dist',
        'data', 't', 'alt', 'northing', 'easting', 'hour', 'station'}
CLOCK = ('calc_quantile', 'variability_score', 'variability_index', 'darr',
         'xcorr_delay')
CHANGES = [('America/St_Johns', '2024-03-10 05:30'),
           ('America/St_Johns', '2024-11-03 04:30'),
           ('Europe/Berlin', '2024-03-31 01:00'),
           ('Europe/Berlin', '2023-10-29 01:00'),
           ('Australia/Lord_Howe', '2024-04-06 15:00'),
           ('Asia/Kathmandu', '1985-12-31 18:30')]
TOKEN = re.compile(r'Qx(\d+)xQ')


def strings(ix):
    return [v for v in ix if isinstance(v, str)]


def sensors(x, out, depth=0):
    """Names that label signals or places."""
    if depth > 5:
        return
    if isinstance(x, pd.DataFrame):
        if isinstance(x.index, pd.DatetimeIndex):
            out.update(strings(x.columns))
        else:
            out.update(strings(x.index))
            if not set(strings(x.columns)) & MEAN:
                out.update(strings(x.columns))
    elif isinstance(x, pd.Series):
        if not isinstance(x.index, pd.DatetimeIndex):
            out.update(strings(x.index))
        if isinstance(x.name, str):
            out.add(x.name)
    elif type(x) in (list, tuple):
        for v in x:
            sensors(v, out, depth + 1)
    elif type(x) is dict:
        for v in x.values():
            sensors(v, out, depth + 1)


def relabel(x, f, depth=0):
    """x with f applied to every name in it."""
    def go(v):
        return relabel(v, f, depth + 1)

    def ix(i):
        if isinstance(i, (pd.DatetimeIndex, pd.MultiIndex)) or not len(i):
            return i
        v = [f(q) if isinstance(q, (str, int)) else q for q in i.tolist()]
        return i if v == i.tolist() else pd.Index(v, name=i.name)
    if depth > 7:
        return x
    if isinstance(x, pd.DataFrame):
        y = x.copy()
        y.index, y.columns = ix(x.index), ix(x.columns)
        return y
    if isinstance(x, pd.Series):
        y = x.copy()
        y.index = ix(x.index)
        if isinstance(x.name, (str, int)):
            y.name = f(x.name)
        return y
    if isinstance(x, pd.Index):
        return ix(x)
    if isinstance(x, np.ndarray) and x.dtype.kind in 'OUT' and x.size:
        v = [f(q) if isinstance(q, (str, int)) else q for q in x.ravel()]
        return np.array(v, dtype=object).reshape(x.shape)
    if isinstance(x, np.ndarray) and x.dtype.kind == 'i' and x.size < 1e5:
        v = [f(q) for q in x.ravel().tolist()]       # numbered sensors
        return x if v == x.ravel().tolist() else np.array(
            v, dtype=object).reshape(x.shape)
    if type(x) in (list, tuple):
        return type(x)(go(v) for v in x)
    if type(x) is dict:
        return {f(k) if isinstance(k, str) else k: go(v)
                for k, v in x.items()}
    if isinstance(x, str) or type(x) in (int, np.int64) and x >= 700000:
        return f(x)
    d = getattr(x, '__dict__', None)
    if d is not None and type(x).__module__.startswith(hooks.PKG) \
            and not hasattr(x, 'value'):
        return ('inst', go(dict(d)))
    return x


def tidy(x):
    """Lists of pairs ordered by name become sets."""
    if isinstance(x, tuple):
        if x and x[0] == 'list' and len(x) == 2 and len(x[1]) > 1 and all(
                isinstance(v, tuple) and v[:1] == ('tuple',) for v in x[1]):
            return ('list', tuple(sorted((tidy(v) for v in x[1]), key=repr)))
        return tuple(tidy(v) for v in x)
    return x


def move(x, f, depth=0):
    def go(v):
        return move(v, f, depth + 1)
    if depth > 7:
        return x
    if isinstance(x, pd.DataFrame):
        y = x.set_axis(go(x.index))
        y.columns = go(x.columns)
        return y
    if isinstance(x, pd.Series):
        return x.set_axis(go(x.index))
    if isinstance(x, pd.DatetimeIndex):
        return f(x)
    if type(x) in (list, tuple):
        return type(x)(go(v) for v in x)
    if type(x) is dict:
        return {k: go(v) for k, v in x.items()}
    return x


def stamped(x, depth=0):
    if depth > 5:
        return []
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return stamped(x.index, depth + 1)
    if isinstance(x, pd.DatetimeIndex):
        return [x]
    if type(x) in (list, tuple):
        return [v for q in x for v in stamped(q, depth + 1)]
    if type(x) is dict:
        return [v for q in x.values() for v in stamped(q, depth + 1)]
    return []


def run(fn, a, k):
    try:
        return fn(*a, **k), ''
    except core.Inconclusive:
        raise
    except Exception as e:       # noqa
        return None, type(e).__name__


def judge(case, clause, c, back, b, q):
    label, fn, a, k = c[:4]
    rtol = tolerance(label)
    first, e0 = attempt(fn, a, k)
    out, e1 = run(fn, b, q)
    bad = (f'{e1 or "a result"} instead of {e0 or "a result"}' if e0 != e1
           else '' if e0 else
           same(tidy(flat(back(out))), tidy(flat(unpack(fn, a, k, clause))),
                rtol))
    if bad and not firm(case, fn, a, k, first, e0, rtol):
        case.sig('fragile', label)
        return
    case.ok(e0 == e1, 'outcome', f'{label} {clause}: {bad}')
    case.ok(not bad, clause, f'{label} {clause}: {bad}',
            args=core.short(a, 400))
    case.sig(clause, label, tuple(hooks.brief(v).split('(')[0] for v in a))


def unpack(fn, a, k, clause):
    out = run(fn, a, k)[0]
    if clause in ('renamed', 'numbered', 'mixed'):
        return relabel(out, lambda s: s)
    return out


def names(case):
    rng = case.rng
    for c in c30.harvest(case, 1, 16, 1):
        label, fn, a, k = c[:4]
        before = purity.freeze([a, k])
        L = set()
        sensors([list(a), k], L)
        if L and not L & MEAN and 'remap_indices' not in k:
            order = [sorted(L)[i] for i in rng.permutation(len(L))]
            to = {s: f'Qx{i}xQ' for i, s in enumerate(order)}
            fro = {v: s for s, v in to.items()}

            def back(s):
                if not isinstance(s, str):
                    return s
                return TOKEN.sub(lambda m: fro.get(m.group(0), '?'), s)
            judge(case, 'renamed', c, lambda o: relabel(o, back),
                  relabel(list(a), lambda s: to.get(s, s)),
                  {q: relabel(v, lambda s: to.get(s, s))
                   for q, v in k.items()})
            # numbers as names
            num = {s: 700000 + 13 * i for i, s in enumerate(order)}
            orf = {v: s for s, v in num.items()}

            def unnumber(s):
                if isinstance(s, str):          # names made of two names
                    return re.sub(r'7\d{5}', lambda m: orf.get(
                        int(m.group(0)), '?'), s)
                return orf.get(s, s)
            if not label.endswith('calc_quantile'):
                judge(case, 'numbered', c, lambda o: relabel(o, unnumber),
                    relabel(list(a), lambda s: num.get(s, s)),
                    {q: relabel(v, lambda s: num.get(s, s))
                     for q, v in k.items()})
                # some of them numbers, some words
                if len(order) > 1:
                    mix = {s: [num, to][i % 2][s]
                           for i, s in enumerate(order)}
                    judge(case, 'mixed', c,
                          lambda o: relabel(o, lambda s: back(unnumber(s))),
                          relabel(list(a), lambda s: mix.get(s, s)),
                          {q: relabel(v, lambda s: mix.get(s, s))
                           for q, v in k.items()})
        T = stamped([list(a), k])
        if T and not label.endswith(('interp_nan', 'null_qc')):
            zones = {str(t.tz) for t in T}
            if zones <= {'None', 'UTC'} or not label.endswith(CLOCK):
                w = pd.Timedelta(days=7 * int(rng.choice(
                    [-2900, -520, -1, 3, 104, 700])))
                judge(case, 'moved', c, lambda o: move(o, lambda t: t - w),
                      move(list(a), lambda t: t + w),
                      {q: move(v, lambda t: t + w) for q, v in k.items()})
            if zones in ({'UTC'}, {'None'}) and not label.endswith(CLOCK):
                # a change of that clock somewhere in the record, often
                # between its first two samples
                tz, when = CHANGES[rng.integers(0, len(CHANGES))]
                t0 = max(T, key=len)
                q = 0 if rng.integers(0, 2) else int(rng.integers(0, len(t0)))
                naive = t0.tz is None
                dw = (pd.Timestamp(when, tz=None if naive else 'UTC') - t0[q]
                      - pd.Timedelta('1ms')).floor('ms')

                def f(t):
                    t = t + dw
                    return (t.tz_localize('UTC') if naive else t) \
                        .tz_convert(tz)

                def b(t):
                    if t.tz is None:
                        return t
                    t = t.tz_convert('UTC') - dw
                    return t.tz_localize(None) if naive else t
                judge(case, 'zone', c, lambda o: move(o, b),
                      move(list(a), f),
                    {q: move(v, f) for q, v in k.items()})
        case.ok(purity.equal(before, purity.freeze([a, k])), 'outcome',
                f'{label}: arguments changed')


def sets(rng, m):
    """Names that mislead: places of the table, parts of one another, ..."""
    p = [int(q) for q in rng.permutation(m)]
    return [('places', p), ('places from one', [q + 1 for q in p]),
            ('negative', [q - m for q in p]),
            ('digits', [str(q) for q in p]),
            ('parts', ['a' * (q + 1) for q in p]),
            ('columns', [['E', 'N', 'x', 'y', 'lat', 'lon', 'zone', 'coh',
                          'dist', 'delay'][q] for q in p]),
            ('fractions', [q + .5 for q in p]),
            ('dates', [pd.Timestamp('2020-01-01') + pd.Timedelta(days=q)
                       for q in p]),
            ('blanks', [' ' * q for q in p]),
            ('case', ['Ab', 'aB', 'ab', 'AB', 'Äb', 'äb', 'b', 'B', 'Ba',
                      'bA'][:m]),
            ('kinds', ['0', 1, '1', 0, 5, '5', 7, '7', 9, '9'][:m])]


def misleading(case):
    """Functions that look sensors up by name, under misleading names."""
    rng = case.rng
    m, n = int(rng.integers(4, 9)), 300
    xy = rng.uniform(-60, 60, (m, 2))
    th, sp = float(rng.uniform(-3, 3)), float(rng.uniform(3, 9))
    g = np.convolve(rng.normal(size=n + 200), np.ones(15) / 15, 'same')
    g = .7 + .25 * g / np.abs(g).max()
    t = pd.date_range('2020-02-02', periods=n, freq='1s')

    def recs(a):
        lag = np.round(xy @ [np.cos(a), np.sin(a)] / sp).astype(int)
        return np.array([g[100 - q:100 - q + n] for q in lag]).T \
            + 0.002 * rng.normal(size=(n, m))
    X, Y = recs(th), recs(th + 1.3)
    r1, r2 = [int(q) for q in rng.permutation(m)[:2]]
    way = int(rng.integers(0, 4))
    cv = [spatial.pol2rect(sp, th), spatial.pol2rect(sp, th + 1.3)]
    moved = xy + rng.normal(size=xy.shape) * 25
    perm = [int(q) for q in rng.permutation(m)]
    per2 = [int(q) for q in rng.permutation(m)]
    method = str(rng.choice(['jamaly', 'gagne']))
    mode = str(rng.choice(['coherence', 'global_coherence', 'distance',
                           'all']))

    def run(L):
        ix = pd.Index(L)
        D, E = pd.DataFrame(X, t, ix), pd.DataFrame(Y, t, ix)
        P = pd.DataFrame(xy, ix, ['E', 'N'])
        no = {q: i for i, q in enumerate(ix)}
        ref = [None, L[r1], [L[r1], L[r2]], (L[r1],)][way]
        v, a, w = case.call(cmv.compute_cmv, D, P, ref, method)
        out = [v, a, np.array(w.pair_lag, float) if w.pair_lag is not None
               else 0., np.array([[no[q] for q in z] for z in w.allpairs])]
        p, c = case.call(field.compute_predicted_position, [D, E], P, L[r1],
                         cv, mode=mode, ndownsel=5)
        # the units of a selection are told by their places
        out += [p] + [np.array([no[q] for q in z.index]) for z in c] \
            + [z.values for z in c]
        Q = pd.DataFrame(moved, ix, ['E', 'N'])
        r, d = case.call(field.assign_positions, P, Q)
        out += [np.array(sorted((no[q], no[z]) for q, z in r)), d.values]
        m1 = [(L[i], L[q]) for i, q in enumerate(perm)]
        m2 = [(L[i], L[q]) for i, q in enumerate(per2)]
        k = case.call(field.cascade_remap, m1, m2)
        out += [np.array(sorted((no[q], no[z]) for q, z in k)),
                case.call(field.remap_positions, P, k).values]
        return out
    first = run([f's{j}' for j in range(m)])
    kind, names = sets(rng, m)[case.index % 11]
    case.note(kind=kind, names=names, way=way, method=method, mode=mode)
    out = run(names)
    for i, (a, b) in enumerate(zip(out, first)):
        case.close(a, b, 'misleading', rtol=1e-7, atol=1e-7,
                   msg=f'result {i} under names of kind {kind}')
    case.sig('misleading', kind, way, method, mode)


WORKLOADS = [('misleading', misleading, 66, 4000), ('names', names, len(PLAN) * 2, len(PLAN) * 120)]
