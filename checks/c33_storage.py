"""The numbers and labels count, not how they are stored."""
import numpy as np
import pandas as pd

from mon import core, hooks, purity
from checks import c28_purity as c28
from checks import c30_concurrency as c30

ID = 'C33'
RULE = ('Public calls are harvested from the workloads of the other '
        'properties; then each call is repeated on the same numbers in '
        'another storage (whole numbers as integers, strided, reversed, '
        'Fortran-ordered, read-only or byte-swapped memory, tables in '
        'separate blocks, time stamps of another resolution or without their '
        'frequency, scalars as other number types) and the results are '
        'compared.  Distinct = (function, kinds of arguments, storage).')
REQUIRED = ['integers', 'strided', 'reversed', 'fortran', 'readonly',
            'swapped', 'blocks', 'units', 'freq', 'scalars', 'outcome']
ASSUMES = ['Functions that draw from the global random stream, change their '
           'argument by design or write files are not driven.',
           'Results are compared to 1e-7 of their scale; where a difference '
           'shows up, the call is judged only if its result withstands '
           'changes of the input in the last bits.',
           'Whole numbers are stored as int64 or int32 without overflow.']
PLAN = c28.PLAN


# ---------------------------------------------------------------- comparison
def flat(x, depth=0):
    """Structure and numbers, without storage."""
    if depth > 7:
        return ('deep',)
    if isinstance(x, pd.DataFrame):
        return ('df', flat(x.index, depth + 1), flat(x.columns, depth + 1),
                tuple(flat(x.iloc[:, j].to_numpy(), depth + 1)
                      for j in range(x.shape[1])))
    if isinstance(x, pd.Series):
        return ('ser', flat(x.index, depth + 1), flat(x.to_numpy(), depth + 1),
                repr(x.name))
    if isinstance(x, pd.DatetimeIndex):
        return ('dti', str(x.tz), x.as_unit('ns').asi8.copy())
    if isinstance(x, pd.TimedeltaIndex):
        return ('tdi', x.as_unit('ns').asi8.copy())
    if isinstance(x, pd.Index):
        return ('idx', flat(np.asarray(x), depth + 1))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biufc':
            return ('num', x.shape, np.array(x, dtype='c16')
                    if x.dtype.kind == 'c' else np.array(x, dtype='f8'))
        if x.dtype.kind in 'mM':
            return ('num', x.shape, x.astype(x.dtype.str[:2] + '[ns]')
                    .astype('i8').astype('f8'))
        return ('obj', x.shape, tuple(flat(v, depth + 1)
                                      for v in x.ravel().tolist()))
    if isinstance(x, dict):
        return ('dict', tuple((repr(k), flat(v, depth + 1))
                              for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(flat(v, depth + 1) for v in x))
    if isinstance(x, (bool, int, float, complex, np.number, np.bool_)):
        return ('num', (), np.asarray(x, dtype='c16' if isinstance(
            x, (complex, np.complexfloating)) else 'f8'))
    if isinstance(x, (str, bytes, type(None))):
        return ('val', x)
    d = getattr(x, '__dict__', None)
    if d is not None and type(x).__module__.startswith(hooks.PKG) \
            and not hasattr(x, 'value'):
        return ('inst', type(x).__name__, flat(d, depth + 1))
    return ('other', repr(x)[:60])


def same(a, b, rtol, where=''):
    """'' or where the first difference is."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return where + ':length'
        if a and a[0] == 'num' and b and b[0] == 'num':
            if a[1] != b[1]:
                return f'{where}:shape {a[1]} {b[1]}'
            p, q = np.ravel(a[2]), np.ravel(b[2])
            if p.dtype != q.dtype:
                p, q = p.astype('c16'), q.astype('c16')
            if np.array_equal(p, q, equal_nan=True):
                return ''
            ok = np.isfinite(q)
            s = np.abs(q[ok]).max() if ok.any() else 0.0
            with np.errstate(all='ignore'):
                c = np.isclose(p, q, rtol=rtol, atol=rtol * s, equal_nan=True)
            if c.all():
                return ''
            i = int(np.flatnonzero(~c)[0])
            return f'{where}[{i}] {p[i]} {q[i]}'
        for i, (p, q) in enumerate(zip(a, b)):
            d = same(p, q, rtol, f'{where}.{i}')
            if d:
                return d
        return ''
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return '' if np.array_equal(a, b) else where + ':stamps'
    return '' if a == b else f'{where}: {a!r} {b!r}'[:200]


# ------------------------------------------------------------------ storages
def walk(x, arr, ser, frm, idx, num, depth=0):
    """The same structure with its parts handed to the given functions."""
    def go(v):
        return walk(v, arr, ser, frm, idx, num, depth + 1)
    if depth > 5:
        return x
    if isinstance(x, pd.DataFrame):
        return frm(x, idx)
    if isinstance(x, pd.Series):
        return ser(x, idx)
    if isinstance(x, pd.Index):
        return idx(x)
    if isinstance(x, np.ndarray):
        return arr(x)
    if type(x) in (list, tuple):
        return type(x)(go(v) for v in x)
    if type(x) is dict:
        return {k: go(v) for k, v in x.items()}
    if type(x) in (float, int):
        return num(x)
    return x


def keep(x, *_):
    return x


def by_array(f):
    """Storage of a bare array, used inside of tables too."""
    def ser(s, idx):
        return pd.Series(f(s.to_numpy()), idx(s.index), name=s.name,
                         copy=False)

    def frm(d, idx):
        if len({str(t) for t in d.dtypes}) != 1:
            return d
        return pd.DataFrame(f(d.to_numpy()), idx(d.index), d.columns,
                            copy=False)
    return dict(arr=f, ser=ser, frm=frm, idx=keep, num=keep)


def numeric(f):
    def g(x):
        return f(x) if x.dtype.kind in 'iufc' and x.ndim and x.size else x
    return g


def _strided(x):
    y = np.zeros(tuple(2 * n for n in x.shape), x.dtype)
    y[...] = 77
    v = y[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def _reversed(x):
    s = tuple(slice(None, None, -1) for _ in x.shape)
    return np.array(x[s])[s]


def _readonly(x):
    y = np.array(x)
    y.setflags(write=False)
    return y


def _swapped(x):
    return x.astype(x.dtype.newbyteorder('>'))


def _blocks(d, idx):
    return pd.concat([d.iloc[:, [j]] for j in range(d.shape[1])], axis=1) \
        if d.shape[1] > 1 else d


def _units(x):
    if not isinstance(x, pd.DatetimeIndex):
        return x
    for u in ('s', 'ms', 'us', 'ns'):
        try:
            y = x.as_unit(u)
        except Exception:        # noqa
            continue
        if u != x.unit and (y == x).all():
            return y
    return x


def _freq(x):
    if not isinstance(x, pd.DatetimeIndex) or len(x) < 3:
        return x
    y = x.copy()
    if y.freq is not None:
        y.freq = None
        return y
    d = np.diff(y.as_unit('ns').asi8)
    if len(set(d.tolist())) == 1 and d[0] > 0:
        try:
            y.freq = pd.tseries.frequencies.to_offset(
                pd.Timedelta(int(d[0]), 'ns'))
        except Exception:        # noqa
            return x
    return y


def _index_only(f):
    return dict(arr=keep, num=keep, idx=f,
                ser=lambda s, i: s.set_axis(f(s.index)),
                frm=lambda d, i: d.set_axis(f(d.index)))


def _array_only(f):
    p = dict(by_array(numeric(f)))
    p['ser'] = p['frm'] = keep
    return p


STORE = {
    'strided': by_array(numeric(_strided)),
    'reversed': by_array(numeric(_reversed)),
    'fortran': by_array(numeric(np.asfortranarray)),
    'readonly': by_array(numeric(_readonly)),
    'swapped': _array_only(_swapped),
    'blocks': dict(arr=keep, ser=keep, frm=_blocks, idx=keep, num=keep),
    'units': _index_only(_units),
    'freq': _index_only(_freq),
}


CHANGED = ('integers', 'units', 'swapped')


def whole(x):
    """Data made of whole numbers (data: not the few numbers of a setting)."""
    if x.dtype.kind != 'f' or x.size < 6 or not np.isfinite(x).all():
        return x
    m = np.abs(x).max()
    k = 1000.0 if 0 < m < 10 else 1.0
    y = np.round(x * k) + 0.0
    return y if np.abs(y).max() < 2 ** 40 and np.ptp(y) > 0 else x


def integers(rng):
    t = rng.choice(['int64', 'int64', 'int32'])

    def f(x):
        if x.dtype.kind != 'f' or x.size < 6 or not np.isfinite(x).all() \
                or (x != np.round(x)).any():
            return x
        return x.astype(t if np.abs(x).max() < 2000 else 'int64')
    return f


def scalars(rng):
    kind = rng.integers(0, 3)
    n = [0]

    def num(x):
        if type(x) is not float:
            return x
        n[0] += 1
        if abs(x) < 1e6 and x == np.floor(x):
            return [int(x), np.float64(x), np.int64(x)][kind]
        return np.float64(x)
    return dict(arr=keep, ser=keep, frm=keep, idx=keep, num=num, n=n)


def attempt(fn, a, k):
    try:
        return flat(fn(*a, **k)), ''
    except core.Inconclusive:
        raise
    except Exception as e:       # noqa
        return None, type(e).__name__


def jitter(rng):
    def f(x):
        if x.dtype.kind != 'f':
            return x
        return x * (1 + rng.choice([-1, 0, 1], x.shape) * 4e-16)
    p = by_array(numeric(f))
    return p


def firm(case, fn, a, k, first, err, rtol):
    """Does the result withstand changes of the last bits?"""
    for _ in range(4):
        j = jitter(case.rng)
        got, e = attempt(fn, walk(a, **j), walk(k, **j))
        if e != err or (not err and same(got, first, rtol / 3)):
            return False
    return True


def tolerance(label):
    # draws from a covariance that may be singular, searches for an optimum
    return 2e-4 if 'copula' in label else \
        1e-5 if label.endswith(('compute_cmv', 'optimum_subset',
                                'compute_predicted_position')) else 1e-7


def storages(case):
    rng = case.rng
    calls = c30.harvest(case, 1, 16, 1)
    for c in calls:
        label, fn, a, k = c[:4]
        rtol = tolerance(label)
        first, e0 = attempt(fn, a, k)
        plans = dict(STORE, scalars=scalars(rng))
        trial = [(n, a, k, p, first, e0) for n, p in plans.items()]
        w = by_array(numeric(whole))
        aw, kw = walk(a, **w), walk(k, **w)
        fw, ew = attempt(fn, aw, kw)
        trial.append(('integers', aw, kw, by_array(numeric(integers(rng))),
                      fw, ew))
        before = purity.freeze([a, k])
        if label.split('.')[-1].startswith('_'):
            trial.pop()          # inner functions are only given fractions
        for name, x, y, p, ref, e1 in trial:
            n = p.pop('n', None) if name == 'scalars' else None
            b, q = walk(x, **p), walk(y, **p)
            if n == [0] or (n is None and name in CHANGED and purity.equal(
                    purity.freeze([b, q]), purity.freeze([x, y]))):
                continue
            got, e = attempt(fn, b, q)
            bad = (f'{e or "a result"} instead of {e1 or "a result"}'
                   if e != e1 else '' if e else same(got, ref, rtol))
            if bad and not firm(case, fn, x, y, ref, e1, rtol):
                case.sig('fragile', label)
                continue
            case.ok(e == e1, name if e1 == '' or e == '' else 'outcome',
                    f'{label} stored as {name}: {bad}')
            if e1:
                case.sig('refused', name, label, e1)
            case.ok(not bad, name, f'{label} stored as {name}: {bad}',
                    args=core.short(x, 400))
            case.sig(name, label, tuple(hooks.brief(v).split('(')[0]
                                        for v in a))
        case.ok(purity.equal(before, purity.freeze([a, k])), 'outcome',
                f'{label}: arguments changed')


WORKLOADS = [('storages', storages, len(PLAN) * 2, len(PLAN) * 80)]
