"""Case runner shared by every monitor.

A check is a set of workloads.  A workload is a function of one Case: it makes
an input from the case's own random stream, drives the real package, and hands
what it observed to oracles (`ok`, `close`, `call`, `raises`).  The runner
counts every oracle evaluation, so that the evidence says what the monitors saw
and a run in which an oracle was never reached ends as inconclusive (exit 2)
instead of passing.
"""
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
import contextlib

import numpy as np
import pandas as pd

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
CALL_LIMIT_S = 150


def size(rng, lo, hi, big, p=0.12):
    """lo..hi, now and then up to big: size-dependent code must not escape."""
    if rng.uniform() < p:
        return int(round(hi * (big / hi) ** rng.uniform(0, 1)))
    return int(rng.integers(lo, hi + 1))


STARTS = ['2019-06-01 08:00', '2024-03-10 01:59:55', '2024-11-03 01:58:20',
          '2023-12-31 23:59:58', '1969-12-31 23:59:00', '2020-02-29 12:00']


def clock(n, dt):
    """n time stamps dt seconds apart: from ordinary days, and across changes
    of the clock of the machine (New York), of the year and of the epoch."""
    k = int(n) * 31 + int(round(dt * 1000))
    ix = pd.to_datetime(STARTS[k % len(STARTS)]) + pd.to_timedelta(
        np.round(np.arange(n) * dt * 1e9).astype('int64'), unit='ns')
    tz = [None, None, None, 'UTC', 'America/St_Johns'][(k // 7) % 5]
    ix = grain(ix, k // 11)
    return ix if tz is None else ix.tz_localize('UTC').tz_convert(tz)


def grain(ix, k):
    """The same times in another of the four resolutions pandas knows."""
    for unit in (['ns', 'us', 'ms', 's'] * 2)[int(k) % 4:]:
        if (ix.as_unit(unit) == ix).all():
            return ix.as_unit(unit)


def labels(rng, m):
    """m different labels of the kinds that tables come with; the order of
    the labels says nothing about the order of the data."""
    p = rng.permutation(m)
    return [lambda: [f's{j}' for j in range(m)],
            lambda: [f's{j}' for j in p],
            lambda: [int(j) for j in p],            # not the position
            lambda: [int(j) * 7 - 3 for j in p],
            lambda: [str(j + 5) for j in p],        # '10' sorts before '9'
            lambda: [f's1_{j}' if j % 2 else f'S1_{j}' for j in p],
            lambda: [['t 1', 'é', 'E', 'N', 'x.y'][j] if j < 5 else f's1{j}'
                     for j in p]][rng.integers(0, 7)]()


class Broken(Exception):
    """An oracle rejected what it observed."""

    def __init__(self, clause, msg, data=None):
        super().__init__(f'{clause}: {msg}')
        self.clause, self.msg, self.data = clause, msg, data or {}


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Inconclusive(Exception):
    pass


def short(x, n=300):
    try:
        with np.printoptions(threshold=12, edgeitems=3, precision=8):
            s = repr(x)
    except Exception as e:       # noqa
        s = f'<unprintable {type(x)} {e}>'
    return s if len(s) <= n else s[:n] + '...'


class Case:
    def __init__(self, prop, workload, index, seed, tier):
        self.prop, self.workload, self.index = prop, workload, index
        self.seed, self.tier = seed, tier
        h = hashlib.sha256(f'{prop}/{workload}/{index}/{seed}'.encode())
        self.rng = np.random.default_rng(
            np.frombuffer(h.digest()[:16], dtype=np.uint32).tolist())
        self.clauses = {}
        self.sigs = set()
        self.notes = {}

    # -- observations -----------------------------------------------------
    def note(self, **kw):
        """Describe the case (goes to the evidence samples and replays)."""
        for k, v in kw.items():
            self.notes[k] = short(v)

    def sig(self, *parts):
        """Register a distinct non-trivial observation."""
        self.sigs.add(hashlib.md5(repr((self.workload,) + parts).encode())
                      .hexdigest()[:12])

    def hit(self, clause, n=1):
        self.clauses[clause] = self.clauses.get(clause, 0) + n

    # -- oracles ----------------------------------------------------------
    def ok(self, cond, clause, msg='', **data):
        self.hit(clause)
        if not bool(cond):
            raise Broken(clause, msg or 'condition is false',
                         {k: short(v) for k, v in data.items()})

    def close(self, got, want, clause, rtol=1e-9, atol=1e-12, msg='', **data):
        """Element-wise closeness with equal shapes, NaN equal to NaN."""
        self.hit(clause)
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(complex if any(isinstance(v, complex)
                                            for v in g.ravel()) else float)
            same = g.shape == w.shape
            good = same and np.allclose(g, w, rtol=rtol, atol=atol,
                                        equal_nan=True)
        except (TypeError, ValueError) as e:
            raise Broken(clause, f'{msg} not comparable: {e}',
                         {'got': short(got), 'want': short(want)})
        if not good:
            if not same:
                why = f'shape {g.shape} instead of {w.shape}'
            else:
                with np.errstate(all='ignore'):
                    d = np.abs(g - w)
                    d = np.where(np.isnan(g) & np.isnan(w), 0, d)
                    k = int(np.argmax(np.where(np.isnan(d), np.inf, d))) \
                        if d.size else 0
                why = (f'worst at flat index {k}: got {g.ravel()[k]!r}, want '
                       f'{w.ravel()[k]!r}')
            raise Broken(clause, f'{msg} {why}'.strip(),
                         dict({'got': short(got), 'want': short(want)},
                              **{k: short(v) for k, v in data.items()}))

    def call(self, fn, *a, **k):
        """Call the package; an exception on a valid input is a violation."""
        name = getattr(fn, '__name__', str(fn))
        try:
            with quiet():
                return fn(*a, **k)
        except (Broken, Skip, Inconclusive, MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:      # noqa
            raise Broken(f'raised:{name}',
                         f'{type(e).__name__}: {e}',
                         {'args': short(a, 600), 'kwargs': short(k),
                          'trace': traceback.format_exc()[-1500:]})

    def raises(self, exc, clause, fn, *a, **k):
        self.hit(clause)
        try:
            with quiet():
                out = fn(*a, **k)
        except exc:
            return
        except (MemoryError, KeyboardInterrupt, Inconclusive):
            raise
        except BaseException as e:      # noqa
            raise Broken(clause, f'expected {exc}, got {type(e).__name__}: {e}')
        raise Broken(clause, f'expected {exc}, got a result',
                     {'out': short(out), 'args': short(a, 600)})


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        yield


def _alarm(signum, frame):
    raise Inconclusive(f'a case ran for more than {CALL_LIMIT_S} s')


def run_case(check, workload, fn, index, seed, tier):
    case = Case(check.ID, workload, index, seed, tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CALL_LIMIT_S)
    res = {'w': workload, 'i': index, 'status': 'held'}
    np_err = np.geterr()
    try:
        with quiet():
            fn(case)
    except Skip:
        res['status'] = 'skipped'
    except Broken as b:
        res.update(status='violated', clause=b.clause, msg=b.msg, data=b.data)
    except Inconclusive as e:
        res.update(status='inconclusive', msg=str(e))
    except MemoryError:
        res.update(status='inconclusive', msg='MemoryError')
    except Exception as e:       # noqa
        # The result had a form the oracle cannot even read.
        res.update(status='violated', clause='unreadable-result',
                   msg=f'{type(e).__name__}: {e}',
                   data={'trace': traceback.format_exc()[-2500:]})
    finally:
        signal.alarm(0)
        np.seterr(**np_err)
    res['notes'] = case.notes
    res['clauses'] = case.clauses
    res['sigs'] = sorted(case.sigs)
    return res


def shard(args):
    modname, tier, seed, k, n, plan = args
    import importlib
    check = importlib.import_module(modname)
    from mon import hooks
    rec = hooks.install()
    out = []
    deadline = time.monotonic() + (600 if tier == 'quick' else 780)
    j = 0
    cut = 0
    for name, fn, count in plan_of(check, tier):
        if plan is not None and name not in plan:
            continue
        for i in range(count):
            j += 1
            if j % n != k:
                continue
            if time.monotonic() > deadline:
                cut += 1
                continue
            out.append(run_case(check, name, fn, i, seed, tier))
    return out, dict(rec.counts), rec.events, cut


# how many times the listed number of quick cases are run (default 3)
QUICK_SCALE = {'C14': 1, 'C28': 1, 'C30': 1, 'C31': 1, 'C11': 2, 'C22': 2,
               'C32': 2}


def plan_of(check, tier):
    for w in check.WORKLOADS:
        name, fn, nq, nt = w
        if tier == 'quick':
            n = nq * getattr(check, 'QUICK_X', 1) \
                * QUICK_SCALE.get(check.ID, 3)
        else:
            n = nt
        yield name, fn, n


# -- findings -----------------------------------------------------------------
def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                parts = line.split()
                d = dict(x.split('=', 1) for x in parts[1:3])
                d['text'] = ' '.join(parts[3:])
                out.append(d)
    return out


def finding_key(r):
    return f"{r['w']}/{r['clause']}"


def main(modname, tier, seed, replay=None, nproc=None):
    import importlib
    t0 = time.monotonic()
    os.makedirs(EVID, exist_ok=True)
    check = importlib.import_module(modname)
    if replay:
        rp = json.load(open(replay))
        from mon import hooks
        rec = hooks.install()
        fn = {w[0]: w[1] for w in check.WORKLOADS}[rp['workload']]
        r = run_case(check, rp['workload'], fn, rp['index'], rp['seed'],
                     rp['tier'])
        print(json.dumps(r, indent=1)[:6000])
        print('last events:', *rec.tail(20), sep='\n  ')
        return 1 if r['status'] == 'violated' else 0

    total = sum(c for _, _, c in plan_of(check, tier))
    if nproc is None:
        nproc = getattr(check, 'NPROC', 4 if tier == 'quick' else 8)
    nproc = max(1, min(nproc, total))
    jobs = [(modname, tier, seed, k, nproc, None) for k in range(nproc)]
    if nproc == 1:
        parts = [shard(jobs[0])]
    else:
        import multiprocessing as mp
        with mp.get_context('fork').Pool(nproc) as pool:
            parts = pool.map(shard, jobs, chunksize=1)
    results = [r for p in parts for r in p[0]]
    results.sort(key=lambda r: ([w[0] for w in check.WORKLOADS].index(r['w']),
                                r['i']))
    calls = {}
    for p in parts:
        for f, c in p[1].items():
            calls[f] = calls.get(f, 0) + c
    cut = sum(p[3] for p in parts)
    # optional verdicts over the whole run (statistics pooled over cases)
    clauses, sigs = {}, set()
    for r in results:
        for c, n in r['clauses'].items():
            clauses[c] = clauses.get(c, 0) + n
        sigs.update(r['sigs'])
    by = {s: sum(r['status'] == s for r in results)
          for s in ('held', 'skipped', 'violated', 'inconclusive')}
    viol = [r for r in results if r['status'] == 'violated']
    known = [k for k in known_findings() if k['property'] == check.ID]
    new, old = [], []
    for r in viol:
        m = [k for k in known if k['key'] == finding_key(r)]
        (old if m else new).append((r, m))
    missing = [c for c in check.REQUIRED if not clauses.get(c)]
    wall = time.monotonic() - t0
    per = {}
    for r in results:
        d = per.setdefault(r['w'], {})
        d[r['status']] = d.get(r['status'], 0) + 1
    samples = []
    seen = set()
    for r in results:
        if r['status'] == 'held' and r['notes'] and r['w'] not in seen:
            seen.add(r['w'])
            samples.append({'workload': r['w'], 'index': r['i'], **r['notes']})
    samples += [{'workload': r['w'], 'index': r['i'], 'violated': r['clause'],
                 'msg': r['msg'][:400]} for r, _ in new[:5]]
    ev = {
        'property': check.ID, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': int(len(results)),
            'distinct_nontrivial': int(len(sigs)),
            'rule': check.RULE,
            'samples': samples or [{'note': 'no case held'}],
            'oracle_evaluations': clauses,
            'cases_by_workload': per,
            'observed_calls': dict(sorted(calls.items())),
            'cases_not_run_for_time': cut,
        },
        'assumptions': getattr(check, 'ASSUMES', []),
        'wall_s': round(wall, 3),
        'violations': len(new),
    }
    tmp = os.path.join(EVID, f'.{check.ID}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f'{check.ID}.json'))

    printed = set()
    for r, m in old:
        if m[0]['key'] not in printed:
            printed.add(m[0]['key'])
            print(f"KNOWN-FINDING: property={check.ID} {m[0]['text']}")
    print(f"{check.ID} {tier} seed={seed}: {len(results)} cases {by}, "
          f"{sum(clauses.values())} oracle evaluations over {len(clauses)} "
          f"clauses, {len(sigs)} distinct, "
          f"{sum(calls.values())} package calls, {wall:.1f} s")
    if new:
        shown = set()
        for r, _ in new:
            if r['clause'] in shown or len(shown) > 8:
                continue
            shown.add(r['clause'])
            rd = os.path.join(EVID, 'replays')
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, f"{check.ID}-{r['w']}-{r['i']}-{seed}-{tier}"
                                 ".json")
            json.dump({'property': check.ID, 'workload': r['w'],
                       'index': r['i'], 'seed': seed, 'tier': tier,
                       'clause': r['clause'], 'msg': r['msg'],
                       'data': r['data'], 'notes': r['notes'],
                       'how': f'python3 run.py {check.ID} --replay <this file>'
                       }, open(p, 'w'), indent=1)
            print(f"  {r['w']}[{r['i']}] {r['clause']}: {r['msg'][:500]}")
            print(f"VIOLATION property={check.ID} replay={p}")
        return 1
    if by['inconclusive'] or missing or not sigs:
        print(f'INCONCLUSIVE property={check.ID} '
              f"inconclusive cases={by['inconclusive']} "
              f'clauses never reached={missing}')
        for r in results:
            if r['status'] == 'inconclusive':
                print('  ', r['w'], r['i'], r['msg'])
        return 2
    return 0
