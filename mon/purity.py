"""Observers of side effects: snapshots of arguments and of process-wide state,
and deep comparison of results."""
import inspect
import os
import sys
import types
import warnings

import numpy as np
import pandas as pd

PKG = 'solarspatialtools'


def freeze(x, depth=0):
    """A deep, independent description of a value."""
    if depth > 6:
        return ('deep', id(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('obj', x.shape, tuple(freeze(v, depth + 1)
                                          for v in x.ravel().tolist()))
        return ('arr', x.dtype.str, x.shape, np.array(x, copy=True))
    if isinstance(x, pd.DataFrame):
        return ('df', freeze(x.index, depth + 1), freeze(x.columns, depth + 1),
                tuple(str(t) for t in x.dtypes),
                tuple(freeze(x.iloc[:, j].to_numpy(copy=True), depth + 1)
                      for j in range(x.shape[1])), freeze(x.attrs, depth + 1))
    if isinstance(x, pd.Series):
        return ('ser', freeze(x.index, depth + 1), str(x.dtype),
                freeze(x.to_numpy(copy=True), depth + 1), repr(x.name),
                freeze(x.attrs, depth + 1))
    if isinstance(x, pd.Index):
        if isinstance(x, pd.DatetimeIndex):
            return ('dti', str(x.tz), x.unit, np.array(x.asi8, copy=True),
                    repr(x.name))
        return ('idx', type(x).__name__, freeze(np.asarray(x).copy(),
                                                depth + 1), repr(x.names))
    if isinstance(x, dict):
        return ('dict', tuple((repr(k), freeze(v, depth + 1))
                              for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None),
                      np.generic)):
        return ('val', x)
    d = getattr(x, '__dict__', None)
    if d is not None and not isinstance(x, (type, types.ModuleType,
                                            types.FunctionType)) \
            and type(x).__module__.startswith(PKG):
        return ('inst', type(x).__name__, freeze(d, depth + 1))
    return ('other', type(x).__name__)


def equal(a, b, rtol=0.0):
    """rtol 0: the same bits (NaN equal to NaN)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if len(a) == 2 and a[0] == 'val' and b[0] == 'val':
            return _val(a[1], b[1], rtol)
        return all(equal(p, q, rtol) for p, q in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        try:
            if np.array_equal(a, b, equal_nan=True):
                return True
        except TypeError:
            return bool(np.array_equal(a, b))
        if rtol and a.dtype.kind in 'fc' and a.size:
            with np.errstate(all='ignore'):
                s = np.nanmax(np.abs(b[np.isfinite(b)])) \
                    if np.isfinite(b).any() else 0.0
            return bool(np.allclose(a, b, rtol=rtol, atol=rtol * s,
                                    equal_nan=True))
        return False
    if isinstance(a, (str, int, float, complex, np.generic)):
        return _val(a, b, rtol)
    return a == b


def _val(a, b, rtol):
    try:
        if a != a and b != b:
            return True
        if a == b:
            return True
        if rtol and isinstance(a, (float, complex, np.inexact)):
            return abs(a - b) <= rtol * max(abs(a), abs(b)) + rtol * 1e-3
    except Exception:        # noqa
        pass
    return False


def modules():
    return [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == PKG or n.startswith(PKG + '.'))]


def package_state():
    """Published tables and defaults of the package's own modules.

    Private names (caches, counters) are the package's business: whatever they
    hold must not show, and the repetition of calls judges that."""
    out = []
    for m in modules():
        for name, v in sorted(vars(m).items()):
            if name.startswith('_'):
                continue
            if isinstance(v, (dict, list, np.ndarray, pd.DataFrame,
                              pd.Series)):
                out.append((m.__name__ + '.' + name, freeze(v)))
            elif inspect.isfunction(v) and str(v.__module__).startswith(PKG):
                f = inspect.unwrap(v)
                out.append((m.__name__ + '.' + name + '()',
                            freeze([list(f.__defaults__ or ()),
                                    f.__kwdefaults__ or {}])))
    return out


def figure_settings():
    import matplotlib
    return tuple(f'{k}={v}' for k, v in
                 sorted(dict.items(matplotlib.rcParams))
                 if not k.startswith('backend'))


def process_state(random=True):
    s = {'np.geterr': freeze(np.geterr()),
         'np.printoptions': freeze({k: v for k, v in
                                    np.get_printoptions().items()}),
         'warnings.filters': tuple(repr(f) for f in warnings.filters),
         'cwd': os.getcwd(),
         'environ': tuple(sorted(os.environ.items())),
         'sys.path': tuple(sys.path),
         'recursion': sys.getrecursionlimit(),
         'pandas': tuple(repr(pd.get_option(o)) for o in (
             'mode.chained_assignment', 'display.max_rows',
             'display.precision', 'mode.sim_interactive',
             'display.width', 'compute.use_bottleneck')),
         'rcParams': figure_settings()}
    if random:
        st = np.random.get_state()
        s['np.random'] = (st[0], np.array(st[1]), st[2], st[3], st[4])
        import random as r
        s['random'] = hash(r.getstate())
    return s


def changed(a, b):
    return [k for k in a if not equal(a[k], b[k])]
