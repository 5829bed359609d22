import importlib
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import numpy as np
import pandas as pd

from mon import core, hooks, purity
from checks import c28_purity as c28

ID = 'C30'
RULE = ('Public calls are harvested from the workloads of the other '
        'properties while these run alone; then the same calls, on the very '
        'same argument objects, are issued from several threads at once with '
        'a switch interval of microseconds, from forked workers, and from a '
        'fresh interpreter with another hash seed, clock zone, locale and '
        'working folder.  Every result is compared with the first one.  '
        'Distinct = (function, kinds of arguments, way of execution).')
REQUIRED = ['thread-same', 'thread-error', 'shared-arguments', 'fork-same',
            'fresh-same', 'fresh-error', 'clock-change', 'overlap-seen',
            'pauses-inside']
ASSUMES = ['Functions that draw from the global random stream, change their '
           'argument by design or write files are not run concurrently.',
           'Repeated floating-point results are compared to 1e-7 of their '
           'scale.', 'Thread interleavings are sampled, not enumerated.']

PLAN = c28.PLAN
PKGDIR = os.sep + hooks.PKG + os.sep
ENVS = [dict(TZ='America/St_Johns', LC_ALL='C'),
        dict(TZ='Pacific/Kiritimati', LC_ALL='POSIX'),
        dict(TZ='Asia/Kathmandu', LC_ALL='C.UTF-8'),
        dict(TZ='Europe/Berlin', LC_ALL='C.UTF-8')]


class Harvest:
    def __init__(self, limit):
        self.calls, self.per, self.limit = [], {}, limit

    def __call__(self, label, fn, a, k):
        name = label.split('.')[-1]
        if (name.startswith('_') and not label.startswith('synthirrad.')) \
                or name in c28.CHANGES \
                or label.startswith(c28.NOT_HERE) or k.get('plot') \
                or ('downscale' in name and k.get('seed') is None
                    and len(a) < 8):
            return fn(*a, **k)
        seen = self.per.get(label, 0)
        self.per[label] = seen + 1
        if seen >= 4 or len(self.calls) >= self.limit:
            return fn(*a, **k)
        before = purity.freeze([a, k])
        st = np.random.get_state()
        out, err = None, ''
        try:
            out = fn(*a, **k)
            return out
        except Exception as e:
            err = type(e).__name__
            raise
        finally:
            # what draws from the common stream cannot be repeated like this
            if purity.equal(before, purity.freeze([a, k])) and \
                    purity.equal(st, np.random.get_state()):
                self.calls.append((label, fn, a, k, before,
                                   purity.freeze(out), err))


def harvest(case, n, limit, deep=1):
    """Run n workloads of other properties alone and keep their calls."""
    rec = hooks.REC if hooks.REC is not None else hooks.install()
    out, names = [], []
    for q in range(n * deep):
        prop, wname, fn = PLAN[(case.index * n + q // deep) % len(PLAN)]
        sub = core.Case(prop, wname, case.index + 7 * (q % deep),
                        case.seed + 104729, 'quick')
        h = Harvest(limit)
        d0 = rec.depth
        rec.around = h
        try:
            fn(sub)
        except core.Inconclusive:
            raise
        except Exception:        # noqa  (judged by its own property)
            pass
        finally:
            rec.around = None
            rec.depth = d0
        names.append(f'{prop}/{wname}')
        out += h.calls
    # a workload may itself change what it handed over earlier
    out = [c for c in out if purity.equal(c[4], purity.freeze([c[2], c[3]]))]
    case.note(workloads=names, calls=len(out))
    if not out:
        raise core.Skip
    return out


def attempt(fn, a, k):
    try:
        return purity.freeze(fn(*a, **k)), ''
    except core.Inconclusive:
        raise
    except Exception as e:       # noqa
        return None, type(e).__name__


def judge(case, way, c, got, err):
    label, fn, a, k, before, first, e0 = c
    if e0 or err:
        case.ok(e0 == err, way + '-error', f'{label}: {err or "a result"} '
                f'instead of {e0 or "a result"}')
        return
    case.ok(purity.equal(got, first, 1e-7), way + '-same',
            f'{label} gives another result when run this way',
            args=core.short(a, 500), first=first, got=got)
    case.sig(way, label, tuple(hooks.brief(v).split('(')[0] for v in a))


class Pauses:
    """Lets go of the interpreter between lines of the package, at random,
    so that the threads meet inside of its functions."""
    TOOL = 4

    def __init__(self, seed, share, limit=4000):
        self.r, self.share, self.left = random.Random(seed), share, limit
        self.n = 0

    def line(self, code, no):
        if PKGDIR not in code.co_filename:
            return sys.monitoring.DISABLE
        if self.left > 0 and self.r.random() < self.share:
            self.left -= 1
            self.n += 1
            time.sleep(self.r.choice([0, 0, 2e-5, 2e-4]))

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'verif-pauses')
        m.restart_events()
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


def threads(case):
    """The same calls from several threads at once, inputs shared."""
    rng = case.rng
    calls = harvest(case, 1, 24, 2)
    rec = hooks.REC
    d0 = rec.depth
    nt = int(rng.integers(3, 7))
    results = [None] * nt
    orders = [[int(i) for i in rng.permutation(len(calls))]
              for _ in range(nt)]
    # either everybody runs the same call at the same moment, or the same
    # function with other arguments, or all go their own way
    how = ['alone', 'same', 'other'][rng.integers(0, 3)]
    lock = how != 'alone'
    if how == 'same':
        orders = [orders[0]] * nt
    if how == 'other':
        groups = {}
        for i, c in enumerate(calls):
            groups.setdefault(c[0], []).append(i)
        orders = [[g[(j + q) % len(g)] for g in groups.values()
                   for q in range(len(g))] for j in range(nt)]
        again = int(rng.choice([1, 4, 12]))
    else:
        again = 1
    pauses = Pauses(int(rng.integers(0, 2 ** 31)),
                    float(rng.choice([0, .05, .3])))
    bar = threading.Barrier(nt, timeout=100)
    active, peak = [0], [0]
    mu = threading.Lock()

    def work(j):
        out = []
        try:
            bar.wait()
            for i in orders[j]:
                label, fn, a, k = calls[i][:4]
                with mu:
                    active[0] += 1
                    peak[0] = max(peak[0], active[0])
                for _ in range(again):
                    t0 = time.perf_counter()
                    out.append((i,) + attempt(fn, a, k))
                    if time.perf_counter() - t0 > .02:
                        break
                with mu:
                    active[0] -= 1
                if lock:
                    bar.wait()
        except threading.BrokenBarrierError:
            pass
        results[j] = out

    sw = sys.getswitchinterval()
    # the interpreter's own warning filters are not safe to swap in threads
    filters, show = warnings.filters[:], warnings.showwarning
    warnings.showwarning = lambda *a, **k: None
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    try:
        ts = [threading.Thread(target=work, args=(j,)) for j in range(nt)]
        with pauses:
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
    finally:
        sys.setswitchinterval(sw)
        warnings.filters[:] = filters
        warnings.showwarning = show
        rec.depth = d0
    if any(t.is_alive() for t in ts):
        raise core.Inconclusive('threads did not finish')
    for r in results:
        for i, got, err in r or []:
            judge(case, 'thread', calls[i], got, err)
    case.ok(all(r is not None and {x[0] for x in r} == set(range(len(calls)))
                for r in results),
            'thread-all', 'a thread did not finish its calls')
    if peak[0] > 1:
        case.hit('overlap-seen')
    if pauses.n:
        case.hit('pauses-inside')
    case.sig('order', how, pauses.share, min(pauses.n, 4000) // 200)
    for c in calls:
        case.ok(purity.equal(c[4], purity.freeze([c[2], c[3]])),
                'shared-arguments', f'{c[0]}: arguments changed')


def forked(case):
    """Each call in a forked worker, in another order."""
    rng = case.rng
    calls = harvest(case, 2, 20)
    order = [int(i) for i in rng.permutation(len(calls))]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = [(i,) + attempt(*calls[i][1:4]) for i in order]
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    case.ok(bool(data), 'fork-answer', 'a forked worker died')
    for i, got, err in pickle.loads(data):
        judge(case, 'fork', calls[i], got, err)


def fresh(case):
    """A new interpreter in another environment."""
    rng = case.rng
    calls = harvest(case, 12, 12)
    order = [int(i) for i in rng.permutation(len(calls))]
    send(case, calls, order, ENVS[int(rng.integers(0, len(ENVS)))])


def send(case, calls, order, env):
    rng = case.rng
    jobs = []
    for i in order:
        try:
            jobs.append((i, pickle.dumps((calls[i][0],) + calls[i][2:4])))
        except Exception:        # noqa  (local functions as arguments)
            continue
    env = dict(os.environ, **env,
               PYTHONHASHSEED=str(int(rng.integers(1, 10 ** 6))),
               VERIF_CHILD='1')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as cwd:
        p = subprocess.run([sys.executable, '-W', 'ignore',
                            os.path.join(here, 'mon', 'child.py')],
                           input=pickle.dumps(jobs), env=env, cwd=cwd,
                           capture_output=True, timeout=140)
    case.ok(p.returncode == 0, 'fresh-answer',
            'the calls end a fresh interpreter: '
            + p.stderr.decode(errors='replace')[-800:])
    for i, got, err in pickle.loads(p.stdout):
        judge(case, 'fresh', calls[i], got, err)
    case.sig('env', env['TZ'])


def zones(case):
    """Naive stamps around a change of the clock, under that very clock."""
    rng = case.rng
    hooks.install() if hooks.REC is None else None
    from solarspatialtools import cmv, field, signalproc, spatial, stats
    from solarspatialtools.synthirrad import copula
    tz, day = [('America/St_Johns', '2024-03-10 02:00'),
               ('America/St_Johns', '2024-11-03 02:00'),
               ('Europe/Berlin', '2024-03-31 02:00'),
               ('Europe/Berlin', '2024-10-27 03:00'),
               ('Australia/Lord_Howe', '2024-10-06 02:00')][case.index % 5]
    n, m = 256, 4
    dt = float(rng.choice([1, 5, 30, 60]))
    t = pd.to_datetime(day) + pd.to_timedelta((np.arange(n) - 9.5) * dt, unit='s')
    a = np.cumsum(rng.normal(size=(n + 40, 1)), axis=0)
    sh = rng.integers(0, 20, m)
    x = np.stack([a[20 + s:20 + s + n, 0] for s in sh], axis=1)
    x = 0.7 + 0.25 * x / np.abs(x).max() + 0.01 * rng.normal(size=x.shape)
    df = pd.DataFrame(x, t, list('abcd'))
    pos = pd.DataFrame(rng.uniform(-200, 200, (m, 2)), df.columns, ['E', 'N'])
    e, q = pos['E'].values, pos['N'].values
    tf = pd.Series(np.exp(-np.linspace(0, 1 / dt, 80)),
                   np.linspace(-0.6 / dt, 0.6 / dt, 80))
    days = pd.date_range(day[:10], periods=4 * 24, freq='1h') \
        - pd.Timedelta(days=2)
    series = pd.Series(rng.uniform(0, 900, len(days)), days, name='g')
    calls = [
        ('spatial.spacetime_distances', (e, q, t[:20], 3.0, 0.7)),
        ('synthirrad.copula.downscale', (t[:20], e, q, 5.0, 0.3, 0.6,
                                         copula.DEFAULT_PARAMS, 3)),
        ('signalproc.xcorr_delay', (df['a'], df['b'])),
        ('signalproc.compute_delays', (df[['a', 'b']], df[['c', 'd']])),
        ('signalproc.compute_delays_tf', (df['a'], df)),
        ('signalproc.averaged_psd', (df, 4)),
        ('signalproc.averaged_tf', (df['a'], df, 4)),
        ('signalproc.apply_filter', (df['a'], tf)),
        ('stats.variability_score', (df['a'] * 900, 3)),
        ('stats.darr', (df * 900, 3)),
        ('stats.variability_index', (df['a'] * 900, df['b'] * 900, 3)),
        ('stats.calc_quantile', (series, '2d', 0.8)),
        ('cmv.compute_cmv', (df, pos, ['a', 'd'])),
        ('field.compute_predicted_position',
         ([df, df[::-1].set_axis(t)], pos, 'b', [(3.0, 1.0), (-1.0, 4.0)])),
    ]
    done = []
    for label, a in calls:
        mod, name = label.rsplit('.', 1)
        fn = getattr(importlib.import_module('solarspatialtools.' + mod), name)
        before = purity.freeze([a, {}])
        out, err = attempt(fn, a, {})
        done.append((label, fn, a, {}, before, out, err))
    send(case, done, range(len(done)), dict(TZ=tz))
    case.hit('clock-change')
    case.sig('zone', tz, day, dt)


WORKLOADS = [
    ('threads', threads, len(PLAN) * 2, len(PLAN) * 24),
    ('forked', forked, len(PLAN) // 2, len(PLAN) * 6),
    ('fresh', fresh, 24, 220),
    ('zones', zones, 10, 60),
]
