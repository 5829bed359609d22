import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

from solarspatialtools.dataio import iotools
from mon.webserver import Server

ID = 'C27'
RULE = ('Download scripts run against a loopback web server that refuses, '
        'cuts, drops or slows answers at chosen points, with the process '
        'killed in the middle of a transfer, and run again until they '
        'finish; the directory and the request log are judged after every '
        'step.  Distinct = (files, fault sequence, kill point, scheme).')
REQUIRED = ['bytes', 'complete', 'no-partial', 'not-again', 'untouched',
            'resumed', 'failure-reported', 'killed', 'exactly-once',
            'listed', 'listed-extension', 'listed-sorted', 'made', 'made-kept',
            'verbose', 'silent', 'replaced', 'old-kept']
ASSUMES = ['Each row of a script ends in the address of a file.',
           'A transfer is cut short of the announced length.',
           'Names of unfinished transfers differ from the final name.']
SIZES = [0, 1, 10, 5000, 70000, 400000]


def scratch():
    return tempfile.mkdtemp(prefix='dl-')


def body(rng, n=None):
    n = int(rng.choice(SIZES[1:])) if n is None else n
    return rng.integers(0, 256, n, dtype=np.uint8).tobytes()


def name(rng, i):
    """Names as archives use them."""
    z = rng.integers(0, 999)
    return [f'f{i}_{z}.nc', f'Data_{i}-{z}.NC', f'pyrnet.rsds.v{i}.{z}.nc',
            f'{i}{z}', f'HOPE_{i}_{z}.tar.gz', f'.hidden{i}_{z}',
            f'wget_{i}_{z}.txt', f'a+b,{i}=({z})~.nc'][rng.integers(0, 8)]


def script(rng, srv, names, root='d'):
    rows = []
    for fn in names:
        pre = ['wget ', 'wget -N --no-check-certificate ', '', 'curl -O '][
            rng.integers(0, 4)]
        rows.append(f'{pre}{srv.url}/{root}/{fn}')
    if rows and rng.integers(0, 3) == 0:         # a file listed twice
        rows.insert(int(rng.integers(0, len(rows) + 1)),
                    rows[rng.integers(0, len(rows))])
    end = ['\n', '\r\n', ' \n'][rng.integers(0, 3)]
    return (end.join(rows) + ['', end][rng.integers(0, 2)]).encode()


def snap(d):
    return {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}


def judge_dir(case, d, truth, own=()):
    """Everything under a final name is complete."""
    now = snap(d)
    for f, v in now.items():
        if f in truth:
            case.ok(v == truth[f], 'no-partial',
                    f'{f} holds {len(v)} of {len(truth[f])} bytes')
    for f in own:
        case.ok(now.get(f[0]) == f[1], 'untouched', f[0])
    case.hit('no-partial')
    return now


def fetch(case):
    """Whole scripts, no faults; then again."""
    rng = case.rng
    srv, root = Server(), scratch()
    try:
        n = int(rng.integers(1, 9))
        names = [name(rng, i) for i in range(n)]
        truth = {f: body(rng) for f in names}
        for f, v in truth.items():
            srv.files[f'/d/{f}'] = v
        srv.files['/wget.sh'] = script(rng, srv, names)
        have = [f for f in names if rng.uniform() < 0.3]
        own = {}
        for f in have:             # already there, with content of its own
            own[f] = b'mine ' + f.encode()
            with open(os.path.join(root, f), 'wb') as h:
                h.write(own[f])
        with open(os.path.join(root, 'notes.txt'), 'wb') as h:
            h.write(b'keep')
        case.note(names=names, have=have)
        case.sig('fetch', n, len(have))
        import io
        import contextlib
        out = io.StringIO()
        verbose = bool(rng.integers(0, 2))
        with contextlib.redirect_stdout(out):
            # the runner's own redirection is inside of this one
            iotools_call(case, srv.url + '/wget.sh', root, verbose, out)
        text = out.getvalue()
        if verbose:
            case.ok(all(f in text for f in names), 'verbose', text[:200])
        else:
            case.ok(text == '', 'silent', text[:200])
        now = snap(root)
        case.ok(set(now) == set(names) | {'notes.txt'}, 'complete',
                f'{sorted(now)}')
        for f in names:
            case.ok(now[f] == own.get(f, truth[f]), 'untouched' if f in own
                    else 'bytes', f)
        case.ok(now['notes.txt'] == b'keep', 'untouched')
        want = sorted(f'/d/{f}' for f in set(names) - set(have))
        case.ok(sorted(x for x in srv.log if x != '/wget.sh') == want,
                'exactly-once', f'{srv.log} for {want}')
        del srv.log[:]
        case.call(iotools.wget_fromurl, srv.url + '/wget.sh', root, False)
        case.ok(srv.log == ['/wget.sh'], 'not-again', str(srv.log))
        case.ok(snap(root) == now, 'untouched')
    finally:
        srv.close()
        shutil.rmtree(root, ignore_errors=True)


def iotools_call(case, url, root, verbose, out):
    import contextlib
    from mon.core import Broken
    try:
        with contextlib.redirect_stdout(out):
            iotools.wget_fromurl(url, root, verbose)
    except Exception as e:       # noqa
        raise Broken('raised:wget_fromurl', f'{type(e).__name__}: {e}')


def fault(rng):
    k = rng.integers(0, 5)
    if k == 0:
        return ('status', int(rng.choice([404, 500, 503])))
    if k == 1:
        return ('drop',)
    if k == 4:
        return ('cut', 0.0)
    return ('cut', float(rng.uniform(0, 0.999)))


def faulty(case):
    rng = case.rng
    srv, root = Server(), scratch()
    try:
        n = int(rng.integers(1, 6))
        names = [name(rng, i) for i in range(n)]
        truth = {f: body(rng, int(rng.choice([10, 5000, 70000, 400000])))
                 for f in names}
        kinds = []
        for f, v in truth.items():
            srv.files[f'/d/{f}'] = v
            q = [fault(rng) for _ in range(rng.integers(0, 3))]
            srv.faults[f'/d/{f}'] = q
            kinds.append(tuple(x[0] for x in q))
        if not any(kinds):
            srv.faults[f'/d/{names[0]}'] = [('cut', 0.5)]
            kinds[0] = ('cut',)
        srv.files['/wget.sh'] = script(rng, srv, names)
        total = sum(len(k) for k in kinds)
        case.note(faults=kinds, sizes=[len(v) for v in truth.values()])
        case.sig('faulty', tuple(kinds))
        before = {}
        done = set()
        for attempt in range(total + 2):
            mark = len(srv.log)
            try:
                iotools.wget_fromurl(srv.url + '/wget.sh', root, False)
                failed = False
            except Exception:        # noqa  (any error report will do)
                failed = True
                case.hit('failure-reported')
            now = judge_dir(case, root, truth, list(before.items()))
            asked = [x[3:] for x in srv.log[mark:] if x.startswith('/d/')]
            case.ok(not set(asked) & done, 'not-again',
                    f'{set(asked) & done} asked for again')
            done = {f for f in names if f in now}
            before = {f: now[f] for f in done}
            if not failed:
                break
        left = [f for f in names if f not in done]
        case.ok(not left, 'resumed', f'{left} never arrived')
        ok = [f for f in names if snap(root).get(f) == truth[f]]
        case.ok(len(ok) == n, 'complete')
    finally:
        srv.close()
        shutil.rmtree(root, ignore_errors=True)


def single(case):
    rng = case.rng
    srv, root = Server(), scratch()
    try:
        v = body(rng, int(rng.choice(SIZES)))
        srv.files['/x'] = v
        p = os.path.join(root, 'out file.bin')
        case.call(iotools.download, srv.url + '/x', p)
        case.ok(snap(root) == {'out file.bin': v}, 'bytes')
        # from a file address
        src = os.path.join(root, 'src.bin')
        w = body(rng)
        with open(src, 'wb') as h:
            h.write(w)
        case.call(iotools.download, 'file://' + src, p)
        case.ok(open(p, 'rb').read() == w, 'replaced')
        case.ok(open(src, 'rb').read() == w, 'untouched')
        # a failure leaves the old file, or none
        big = body(rng, 70000)
        srv.files['/y'] = big
        srv.faults['/y'] = [fault(rng), fault(rng)]
        for q in (p, os.path.join(root, 'new.bin')):
            try:
                iotools.download(srv.url + '/y', q)
            except Exception:        # noqa
                case.hit('failure-reported')
            else:
                case.ok(False, 'failure-reported', 'no error was raised')
        case.ok(open(p, 'rb').read() == w, 'old-kept')
        case.ok(not os.path.exists(os.path.join(root, 'new.bin')),
                'no-partial')
        case.call(iotools.download, srv.url + '/y', q)
        case.ok(open(q, 'rb').read() == big, 'resumed')
        case.sig('single', len(v))
    finally:
        srv.close()
        shutil.rmtree(root, ignore_errors=True)


CHILD = ("import sys; from solarspatialtools.dataio.iotools import "
         "wget_fromurl; print('go', flush=True); "
         "wget_fromurl(sys.argv[1], sys.argv[2], False)")


def killed(case):
    """The process dies in the middle of a transfer, then is run again."""
    rng = case.rng
    srv, root = Server(), scratch()
    p = None
    try:
        n = int(rng.integers(2, 5))
        names = [f'k{i}.nc' for i in range(n)]
        truth = {f: body(rng, int(rng.choice([30000, 400000]))) for f in names}
        for f, v in truth.items():
            srv.files[f'/d/{f}'] = v
        at = int(rng.integers(0, n))
        part = float(rng.uniform(0.05, 0.98))
        hung = f'/d/{names[at]}'
        srv.faults[hung] = [('stall', part, 60)]
        srv.files['/wget.sh'] = script(rng, srv, names)
        sig = [signal.SIGKILL, signal.SIGTERM, signal.SIGINT][
            rng.integers(0, 3)]
        case.note(files=n, at=at, part=part, signal=sig.name)
        case.sig('killed', n, at, round(part, 1), sig.name)
        p = subprocess.Popen([sys.executable, '-c', CHILD,
                              srv.url + '/wget.sh', root],
                             stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL)
        end = time.time() + 60
        while hung not in srv.sent and time.time() < end \
                and p.poll() is None:
            time.sleep(0.01)
        if hung not in srv.sent:
            from mon.core import Broken, Inconclusive
            if p.poll() is not None:
                raise Broken('raised:wget_fromurl',
                             f'the process ended with {p.returncode}')
            raise Inconclusive('the transfer never started')
        time.sleep(float(rng.uniform(0, 0.15)))
        p.send_signal(sig)
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        case.hit('killed')
        now = judge_dir(case, root, truth)
        case.ok(names[at] not in now, 'no-partial',
                'the interrupted file is in place')
        here = [f for f in names if f in now]
        case.ok(all(now[f] == truth[f] for f in here), 'complete')
        mark = len(srv.log)
        case.call(iotools.wget_fromurl, srv.url + '/wget.sh', root, False)
        asked = [x[3:] for x in srv.log[mark:] if x.startswith('/d/')]
        case.ok(sorted(asked) == sorted(set(names) - set(here)), 'not-again',
                str(asked))
        now = judge_dir(case, root, truth)
        case.ok(all(now.get(f) == truth[f] for f in names), 'resumed')
    finally:
        if p is not None and p.poll() is None:
            p.kill()
            p.wait()
        srv.close()
        shutil.rmtree(root, ignore_errors=True)


def folders(case):
    rng = case.rng
    root = scratch()
    try:
        d = os.path.join(root, *[f'a{i}' for i in range(rng.integers(1, 5))])
        case.call(iotools.ensurepath, d)
        case.ok(os.path.isdir(d), 'made')
        exts = ['.csv', '.nc', '.h5', '', '.csv.bak', '.CSV', '.tar.gz', 'csv']
        names = sorted({f'{rng.choice(list("xyzabc"))}{rng.integers(0, 99)}'
                        f'{exts[rng.integers(0, len(exts))]}'
                        for _ in range(rng.integers(0, 40))})
        for f in rng.permutation(names):
            with open(os.path.join(d, str(f)), 'w') as h:
                h.write(str(f))
        case.call(iotools.ensurepath, d)
        case.ok(sorted(os.listdir(d)) == names, 'made-kept')
        case.sig('folders', len(names) // 5, d.count('/'))
        got = case.call(iotools.getfiles, d)
        case.ok(list(got) == names, 'listed-sorted', f'{got}')
        got = case.call(iotools.getfiles, d, sort=False)
        case.ok(sorted(got) == names and len(got) == len(names), 'listed')
        for e in ('.csv', '.nc', '.gz', '.none'):
            want = [f for f in names if f.endswith(e) and f != e]
            got = case.call(iotools.getfiles, d, e)
            case.ok(list(got) == want, 'listed-extension', f'{got} {want}')
            got = case.call(iotools.getfiles, d, ext=e, sort=False)
            case.ok(sorted(got) == want, 'listed-extension')
    finally:
        shutil.rmtree(root, ignore_errors=True)


WORKLOADS = [
    ('fetch', fetch, 40, 500),
    ('faulty', faulty, 60, 900),
    ('single', single, 30, 400),
    ('killed', killed, 12, 120),
    ('folders', folders, 60, 600),
]
