import glob
import importlib
import os

import warnings

import numpy as np
import pandas as pd

from mon import core, hooks, purity

ID = 'C28'
RULE = ('The workloads of the other properties, watched: every public call '
        'made by them is framed by snapshots of its arguments and of the '
        'process-wide state, then a sample of the calls is repeated in another '
        'order, all results being kept alive, and compared with the first '
        'results.  Distinct = (workload, function, kinds of arguments).')
REQUIRED = ['arguments-kept', 'process-state', 'random-state', 'same-again',
            'results-stay', 'tables-kept', 'error-again',
            'odd-input:accepted', 'odd-input:refused']
ASSUMES = ['cleanfreq, the file tools and the figure tools change what they '
           'are given by design.',
           'Functions that draw from the global random stream are repeated '
           'from the same stream position; unseeded draws are not repeated.',
           'Repeated floating-point results are compared to 1e-7 of their '
           'scale.']

# by design: adjusts or creates what it is given
CHANGES = {'cleanfreq'}
NOT_HERE = ('dataio.', 'visualization.')
DRAWS = ('synthirrad.cloudfield.',)
SKIP_CHECKS = {'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32',
               'C33', 'C34', 'C35', 'C36', 'C37'}
HEAVY = {('C14', 'recovered'), ('C23', 'correlation'), ('C13', 'batch')}

HERE = os.path.dirname(os.path.abspath(__file__))
PLAN, SLOW = [], []
for f in sorted(glob.glob(os.path.join(HERE, 'c[0-9][0-9]_*.py'))):
    n = os.path.basename(f)[:-3]
    if n[:3].upper() in SKIP_CHECKS:
        continue
    m = importlib.import_module('checks.' + n)
    for w in m.WORKLOADS:
        (SLOW if (m.ID, w[0]) in HEAVY else PLAN).append(
            (m.ID, w[0], w[1]))
for n in ('c25_qc',):
    m = importlib.import_module('checks.' + n)


class Watch:
    def __init__(self, case, label):
        self.case, self.label = case, label
        self.calls, self.bad, self.per = [], [], {}

    def __call__(self, label, fn, a, k):
        name = label.split('.')[-1]
        if name.startswith('_') or name in CHANGES or \
                (label.startswith(NOT_HERE) and 'hope_campaign.' not in label):
            return fn(*a, **k)
        if name in ('parse_file', 'dataset_to_h5'):
            return fn(*a, **k)
        case = self.case
        seen = self.per.get(label, 0)
        self.per[label] = seen + 1
        if seen > 60:
            return fn(*a, **k)
        draws = label.startswith(DRAWS) or (
            'downscale' in name and k.get('seed') is None and len(a) < 8)
        before = purity.freeze([a, k])
        st = np.random.get_state() if draws else None
        p0 = purity.process_state(random=True)
        err = out = None
        try:
            out = fn(*a, **k)
            return out
        except Exception as e:
            err = e
            raise
        finally:
            p1 = purity.process_state(random=True)
            ch = purity.changed(p0, p1)
            if draws:
                ch = [c for c in ch if c != 'np.random']
            case.hit('random-state')
            case.hit('process-state')
            if ch:
                self.bad.append(('process-state', f'{label} changed {ch}'))
            case.hit('arguments-kept')
            if not purity.equal(before, purity.freeze([a, k])):
                self.bad.append(('arguments-kept',
                                 f'{label} changed its arguments: '
                                 f'{hooks.brief(a)} '
                                 + core.short(a, 300)))
            elif seen < 5 and len(self.calls) < 60 and not (
                    'downscale' in name and draws):
                self.calls.append((label, fn, a, k, before, st,
                                   type(err), purity.freeze(out)))
            case.sig(self.label, label, tuple(hooks.brief(v).split('(')[0]
                                              for v in a))


def slow(case):
    watch(case, SLOW)


def watch(case, plan=PLAN):
    rng = case.rng
    prop, wname, fn = plan[case.index % len(plan)]
    sub = core.Case(prop, wname, case.index // len(plan), case.seed + 7919,
                    'quick')
    case.note(workload=f'{prop}/{wname}', index=sub.index)
    rec = hooks.REC if hooks.REC is not None else hooks.install()
    w = Watch(case, f'{prop}/{wname}')
    t0 = purity.package_state()
    d0 = rec.depth
    rec.around = w
    try:
        fn(sub)
    except core.Inconclusive:
        raise
    except Exception:            # noqa  (judged by its own property)
        pass
    finally:
        rec.around = None
        rec.depth = d0
    for clause, msg in w.bad:
        case.ok(False, clause, msg)
    # again, in another order, keeping every result
    kept = []
    for i in rng.permutation(len(w.calls)):
        label, f, a, k, before, st, err, first = w.calls[i]
        if not purity.equal(before, purity.freeze([a, k])):
            continue                  # the workload itself changed its input
        back = np.random.get_state()
        if st is not None:
            np.random.set_state(st)
        try:
            out, e = f(*a, **k), type(None)
        except core.Inconclusive:
            raise
        except Exception as x:        # noqa
            out, e = None, type(x)
        finally:
            if st is not None:
                np.random.set_state(back)
        if err is not type(None) or e is not type(None):
            case.ok(e is err, 'error-again',
                    f'{label}: {e.__name__} after {err.__name__}')
            continue
        fr = purity.freeze(out)
        case.ok(purity.equal(fr, first, 1e-7), 'same-again',
                f'{label} gives another result when repeated',
                args=core.short(a, 500), first=first, again=fr)
        kept.append((label, out, fr, a, k, before))
    for label, out, fr, a, k, before in kept:
        case.ok(purity.equal(fr, purity.freeze(out)), 'results-stay',
                f'an earlier result of {label} changed')
        case.ok(purity.equal(before, purity.freeze([a, k])),
                'arguments-kept', f'{label}: arguments changed later')
    odd(case, w.calls)
    t1 = purity.package_state()
    names = [n for n, v in t0]
    for (n, v), (n2, v2) in zip(t0, t1):
        case.ok(n == n2 and purity.equal(v, v2), 'tables-kept',
                f'{n} of the package changed')
    case.ok(len(t0) == len(t1), 'tables-kept')


def disorder(x, rng, how):
    """The same argument, out of order or with holes."""
    if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
        return type(x)(disorder(v, rng, how) for v in x)
    if isinstance(x, (pd.Series, pd.DataFrame)) and len(x) > 2:
        if how == 'holes':
            y = x.copy()
            try:
                y.iloc[rng.integers(0, len(x), max(1, len(x) // 9))] = np.nan
            except (TypeError, ValueError):
                pass
            return y
        o = np.random.default_rng(len(x)).permutation(len(x))
        return x.iloc[o if how == 'shuffled' else slice(None, None, -1)]
    if isinstance(x, np.ndarray):
        y = x.copy()
        if how == 'holes' and y.dtype.kind == 'f' and y.size > 2:
            y.ravel()[rng.integers(0, y.size, max(1, y.size // 9))] = np.nan
        return y
    return x


def odd(case, calls):
    """Input that is refused, or gives odd results, is left alone as well."""
    rng = case.rng
    small = [c for c in calls if c[5] is None
             and 'optimum_subset' not in c[0]
             and sum(np.size(v) for v in c[2]
                     if isinstance(v, (np.ndarray, pd.DataFrame, pd.Series)))
             < 60000]
    for i in rng.permutation(len(small))[:6]:
        label, f, a, k = small[i][:4]
        how = ['shuffled', 'reversed', 'holes'][rng.integers(0, 3)]
        a = disorder(a, rng, how)
        k = {q: disorder(v, rng, how) for q, v in k.items()}
        before = purity.freeze([a, k])
        p0 = purity.process_state(random=True)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f(*a, **k)
            case.hit('odd-input:accepted')
        except core.Inconclusive:
            raise
        except Exception:            # noqa
            case.hit('odd-input:refused')
        ch = purity.changed(p0, purity.process_state(random=True))
        if 'downscale' in label and ch == ['np.random']:
            ch = []
        case.ok(not ch, 'process-state', f'{label} with {how} input changed '
                f'{ch}')
        case.ok(purity.equal(before, purity.freeze([a, k])), 'arguments-kept',
                f'{label} changed its {how} arguments: {hooks.brief(a)}')


def figures(case):
    """Drawing changes no setting, no argument and no result."""
    import matplotlib.pyplot as plt
    from solarspatialtools.visualization import vis_tools
    from solarspatialtools.synthirrad import cloudfield as cf, copula
    rng = case.rng
    n = int(rng.integers(20, 60))
    x, y = rng.normal(size=n), rng.normal(size=n) * 3
    field = rng.uniform(size=(n, int(rng.integers(20, 60))))
    clear = (rng.uniform(size=field.shape) < .5) * 1.
    edges = (rng.uniform(size=field.shape) < .2) * (1. - clear)
    kt = pd.Series(rng.uniform(.2, 1.2, 256), core.clock(256, 1.))
    seed = int(rng.integers(0, 1000))
    w = np.arange(1, 5) / 10
    todo = [
        (vis_tools, 'scatter_hist', (x, y), None),
        (vis_tools, 'annotate_fig', None, None),
        (cf, '_random_at_scale', ((3, 4), field.shape), 'plot'),
        (cf, '_stack_random_field', (w, np.arange(1, 5), field.shape),
         'plot'),
        (cf, '_calc_clear_mask', (field, .4), 'plot'),
        (cf, '_find_edges', (clear, 3), 'plot'),
        (cf, '_scale_field_lave', (field, clear, edges, .7), 'plot'),
        (cf, '_scale_field_basic', (field, clear, edges, .7), 'plot'),
        (cf, 'get_timeseries_stats', (kt,), 'plot'),
        (copula, '_gmdistribution',
         (np.arange(-2, 2, .05), [.3, 1.], [.02, .01], [.4, .6]), 'debug')]
    # inner functions may come and go
    todo = [(label, getattr(m, label), a, flag) for m, label, a, flag in todo
            if not label.startswith('_') or hasattr(m, label)]
    plt.close('all')
    try:
        plt.subplots()
        for i in rng.permutation(len(todo)):
            label, f, a, flag = todo[i]
            if a is None:
                a = (plt.subplots()[1],)
                before = None
            else:
                before = purity.freeze(list(a))
            np.random.seed(seed)
            ref = f(*a) if flag else None
            s1 = purity.process_state(random=True)
            np.random.seed(seed)
            s0 = purity.process_state(random=False)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out = f(*a, **({flag: True} if flag else {}))
            ch = purity.changed(s0, purity.process_state(random=False))
            case.ok(not ch, 'process-state', f'{label} drawing changed {ch}')
            if flag:
                ch = purity.changed(s1, purity.process_state(random=True))
                case.ok(not ch, 'random-state',
                        f'{label}: drawing leaves another {ch}')
                case.ok(purity.equal(purity.freeze(ref), purity.freeze(out)),
                        'same-again', f'{label} gives another result when it '
                        'draws')
            if before is not None:
                case.ok(purity.equal(before, purity.freeze(list(a))),
                        'arguments-kept', f'{label} drawing changed its '
                        'arguments')
            case.sig('figures', label)
    finally:
        plt.close('all')


WORKLOADS = [
    ('figures', figures, 6, 100),
    ('watch', watch, len(PLAN) * 6, len(PLAN) * 120),
    ('slow', slow, len(SLOW) * 4, len(SLOW) * 40),
]
