import math

import numpy as np
import pandas as pd

from solarspatialtools import spatial
from mon.core import size

ID = 'C03'
RULE = ('Random planar vectors (floats, integers, tiny and huge magnitudes, '
        'near-parallel pairs) in every accepted container; results judged '
        'against elementary trigonometry and by the algebraic laws.  Distinct '
        '= (operation, container, size class, magnitude decade).')
REQUIRED = ['dot', 'unit', 'magnitude', 'polar', 'polar-inverse', 'rotate',
            'rotate-norm', 'rotate-compose', 'rotate-type', 'project',
            'project-length-free', 'project-sign', 'project-pandas',
            'vectors', 'vectors-pandas', 'intersection']


def pair(rng, lo=-3, hi=6):
    m = 10 ** rng.uniform(lo, hi)
    a = rng.uniform(0, 2 * np.pi)
    k = rng.integers(0, 12)
    if k == 0:
        a = rng.integers(0, 4) * np.pi / 2
    elif k == 1:            # exactly along an axis, with either zero
        s = float(rng.choice([-1, 1]))
        z = float(rng.choice([0.0, -0.0]))
        return (s * m, z) if rng.integers(0, 2) else (z, s * m)
    return float(m * math.cos(a)), float(m * math.sin(a))


def wraps(rng, v):
    k = ['tuple', 'list', 'array', 'series'][rng.integers(0, 4)]
    if k == 'tuple':
        return k, tuple(v)
    if k == 'list':
        return k, list(v)
    if k == 'array':
        return k, np.array(v)
    return k, pd.Series(v, index=['E', 'N'] if rng.integers(0, 2)
                        else ['x', 'y'])


def basics(case):
    rng = case.rng
    for _ in range(8):
        a, b = pair(rng), pair(rng)
        if rng.integers(0, 4) == 0:
            a = tuple(int(x) for x in rng.integers(-50, 50, 2))
            b = tuple(int(x) for x in rng.integers(1, 50, 2))
            if a == (0, 0):
                a = (3, -4)
        ka, va = wraps(rng, a)
        kb, vb = wraps(rng, b)
        if 'series' in (ka, kb):          # dot indexes by position 0/1
            da, db = np.array(a), np.array(b)
        else:
            da, db = va, vb
        case.note(a=a, b=b, ka=ka, kb=kb)
        la, lb = math.hypot(*a), math.hypot(*b)
        case.close(case.call(spatial.dot, da, db), a[0]*b[0] + a[1]*b[1],
                   'dot', rtol=1e-12, atol=1e-12 * la * lb)
        case.close(case.call(spatial.magnitude, va), la, 'magnitude',
                   rtol=1e-12)
        u = case.call(spatial.unit, va)
        case.close(np.asarray(u, float), [a[0] / la, a[1] / la], 'unit',
                   rtol=1e-12, atol=1e-14)
        r, th = case.call(spatial.rect2pol, a[0], a[1])
        case.close(r, la, 'polar', rtol=1e-12)
        case.ok(abs(math.remainder(float(th) - math.atan2(a[1], a[0]),
                                   2 * math.pi)) < 1e-12
                and -math.pi - 1e-12 <= th <= math.pi + 1e-12, 'polar',
                f'angle {th}')
        x, y = case.call(spatial.pol2rect, r, th)
        case.close([x, y], a, 'polar-inverse', rtol=1e-12, atol=1e-12 * la)
        t = rng.uniform(-20, 20)
        q = 10 ** rng.uniform(-3, 5)
        x, y = case.call(spatial.pol2rect, q, t)
        case.close([x, y], [q * math.cos(t), q * math.sin(t)],
                   'polar-inverse', rtol=1e-12, atol=1e-12 * q)
        case.sig('basic', ka, kb, int(math.log10(la) // 2))
    # arrays of coordinates
    n = size(rng, 2, 8, 500)
    A, B = rng.normal(size=(2, n)), rng.normal(size=(2, n))
    case.close(case.call(spatial.dot, A, B), [A[0][k]*B[0][k]+A[1][k]*B[1][k]
                                              for k in range(n)], 'dot')
    case.close(case.call(spatial.magnitude, A),
               [math.hypot(A[0][k], A[1][k]) for k in range(n)], 'magnitude')
    if rng.integers(0, 3) == 0:
        A[:, rng.integers(0, n)] = 0
        A[rng.integers(0, 2)] = np.round(A[rng.integers(0, 2)])
    r, th = case.call(spatial.rect2pol, A[0], A[1])
    case.close(r * np.cos(th), A[0], 'polar', rtol=1e-12)
    case.close(r * np.sin(th), A[1], 'polar', rtol=1e-12)
    case.ok(np.all(r >= 0) and np.all(np.abs(th) <= math.pi + 1e-12), 'polar')
    x, y = case.call(spatial.pol2rect, r, th)
    case.close([x, y], A, 'polar-inverse', rtol=1e-12)


def rotate(case):
    rng = case.rng
    n = size(rng, 1, 5, 300)
    many = n > 1
    kind = ['tuple', 'list', 'array'][case.index % 3]
    xs = [pair(rng, -1, 4) for _ in range(n)]
    if many:
        v = ([p[0] for p in xs], [p[1] for p in xs])
    else:
        v = xs[0]
    if rng.integers(0, 4) == 0:       # whole numbers
        v = rng.integers(-50, 51, np.shape(v)).tolist()
    v = {'tuple': tuple, 'list': list, 'array': np.array}[kind](v)
    t1, t2 = rng.uniform(-10, 10, 2)
    if rng.integers(0, 5) == 0:
        t1, t2 = (rng.integers(-4, 5, 2) * np.pi / 2).tolist()
    case.note(kind=kind, v=v, t1=t1, t2=t2)
    out = case.call(spatial.rotate_vector, v, t1)
    if kind in ('tuple', 'list'):
        case.ok(isinstance(out, (tuple, list)), 'rotate-type', f'{type(out)}')
    else:
        case.ok(isinstance(out, np.ndarray), 'rotate-type', f'{type(out)}')
    got = np.array(out, float)
    V = np.array(v, float)
    want = np.array([math.cos(t1) * V[0] - math.sin(t1) * V[1],
                     math.sin(t1) * V[0] + math.cos(t1) * V[1]])
    s = np.abs(V).max() + 1e-300
    case.close(got, want, 'rotate', rtol=1e-11, atol=1e-11 * s)
    case.close(np.hypot(got[0], got[1]), np.hypot(V[0], V[1]), 'rotate-norm',
               rtol=1e-11, atol=1e-11 * s)
    two = np.array(case.call(spatial.rotate_vector,
                             case.call(spatial.rotate_vector, v, t1), t2))
    one = np.array(case.call(spatial.rotate_vector, v, t1 + t2))
    case.close(two, one, 'rotate-compose', rtol=1e-10, atol=1e-10 * s)
    case.sig('rot', kind, many)


def project(case):
    rng = case.rng
    n = size(rng, 1, 8, 300)
    V = np.array([pair(rng, -1, 5) for _ in range(n)])
    if rng.integers(0, 4) == 0:
        V = rng.integers(-500, 500, size=(n, 2))
    d = pair(rng, -3, 4)
    a = math.atan2(d[1], d[0])
    want = V[:, 0] * math.cos(a) + V[:, 1] * math.sin(a)
    s = np.abs(V).max() + 1
    kd, vd = wraps(rng, d)
    if kd == 'series':
        vd = np.array(d)
    kind = ['list', 'tuple', 'array', 'frame'][case.index % 4]
    idx = [f'k{j}' for j in rng.permutation(n)]
    cols = [['dx', 'dy'], ['dx', 'dy'], ['x', 'y'], ['y', 'x'], ['N', 'E'],
            [1, 0]][rng.integers(0, 6)]
    v = {'list': lambda: [tuple(r) for r in V],
         'tuple': lambda: tuple(list(r) for r in V),
         'array': lambda: V.copy(),
         'frame': lambda: pd.DataFrame(V, index=idx, columns=cols)
         }[kind]()
    case.note(kind=kind, V=V, d=d)
    out = case.call(spatial.project_vectors, v, vd)
    if kind == 'frame':
        case.ok(isinstance(out, pd.DataFrame)
                and list(out.columns) == ['dist']
                and list(out.index) == idx, 'project-pandas',
                'frame with column dist on the input index expected',
                out=out)
        got = out['dist'].values
    else:
        got = np.asarray(out)
    case.close(got, want, 'project', rtol=1e-11, atol=1e-11 * s)

    def vals(o):
        return np.asarray(o).ravel()
    k = 10 ** rng.uniform(-4, 4)
    case.close(vals(case.call(spatial.project_vectors, v,
                              (d[0] * k, d[1] * k))), want,
               'project-length-free', rtol=1e-10, atol=1e-10 * s)
    case.close(vals(case.call(spatial.project_vectors, v, (-d[0], -d[1]))),
               -want, 'project-sign', rtol=1e-10, atol=1e-10 * s)
    case.sig('proj', kind, kd, n == 1)


def vectors(case):
    rng = case.rng
    n = size(rng, 1, 8, 300)
    off = rng.uniform(-1e6, 1e6, 2) * rng.integers(0, 2)
    x = rng.normal(size=n) * 1e3 + off[0]
    y = rng.normal(size=n) * 1e3 + off[1]
    rp = rng.normal(size=2) * 1e3 + off
    if rng.integers(0, 4) == 0:
        x, y = rng.integers(-99, 99, n), rng.integers(-99, 99, n)
    kind = ['list', 'tuple', 'array', 'series'][case.index % 4]
    idx = [f'k{j}' for j in rng.permutation(n)]
    mk = {'list': list, 'tuple': tuple, 'array': np.array,
          'series': lambda q: pd.Series(q, index=idx)}[kind]
    rk = ['tuple', 'list', 'array', 'series', 'extra'][rng.integers(0, 5)]
    r = {'tuple': tuple(rp), 'list': list(rp), 'array': np.array(rp),
         'series': pd.Series(rp, index=['E', 'N']),
         'extra': pd.Series(list(rp) + [32.], index=['E', 'N', 'zone'])}[rk]
    case.note(kind=kind, rk=rk, x=x, y=y, r=rp)
    out = case.call(spatial.compute_vectors, mk(x), mk(y), r)
    want = np.array([[x[k] - rp[0], y[k] - rp[1]] for k in range(n)])
    if kind == 'series':
        case.ok(isinstance(out, pd.DataFrame)
                and list(out.columns) == ['dx', 'dy']
                and list(out.index) == idx, 'vectors-pandas',
                'frame dx, dy on the input index expected', out=out)
        out = out.values
    case.close(np.asarray(out), want, 'vectors', rtol=1e-12, atol=1e-8)
    case.sig('vec', kind, rk)


def intersect(case):
    rng = case.rng
    n = size(rng, 1, 8, 100)
    A, B, C = [], [], []
    for _ in range(n):
        m = 10 ** rng.uniform(-1, 4)
        a0 = rng.uniform(0, 2 * np.pi)
        if rng.integers(0, 5) == 0:
            a0 = float(rng.integers(0, 4)) * np.pi / 2
        sep = rng.uniform(0.05, np.pi - 0.05) * rng.choice([-1, 1])
        c = np.array([m * math.cos(rng.uniform(0, 6.3)),
                      m * math.sin(rng.uniform(0, 6.3))]) + m * 0.01
        ua = np.array([math.cos(a0), math.sin(a0)])
        ub = np.array([math.cos(a0 + sep), math.sin(a0 + sep)])
        if rng.integers(0, 4) == 0:     # exactly along an axis or a diagonal
            exact = [(1, 0), (0, 1), (-1, 0), (0, -1), (.6, .8), (-.8, .6),
                     (-0.0, 1), (1, -0.0), (-.6, -.8), (.8, -.6)]
            i = rng.integers(0, len(exact))
            ua = np.array(exact[i], dtype=float)
            if rng.integers(0, 2):
                ub = np.array(exact[rng.integers(0, len(exact))], dtype=float)
            if abs(ua[0] * ub[1] - ua[1] * ub[0]) < 0.05:
                ub = np.array([-ua[1], ua[0]])
            case.hit('exact-direction')
        ra, rb = c @ ua, c @ ub
        if abs(ra) < 1e-2 * m or abs(rb) < 1e-2 * m:
            ra, rb = 0.3 * m, 0.7 * m
            c = np.linalg.solve(np.array([ua, ub]), [ra, rb])
        A.append(ra * ua)
        B.append(rb * ub)
        C.append(c)
    A, B, C = np.array(A), np.array(B), np.array(C)
    case.note(A=A, B=B)
    out = np.asarray(case.call(spatial.compute_intersection, A, B))
    case.ok(out.shape == (n, 2), 'intersection', f'shape {out.shape}')
    for k in range(n):
        s = np.abs(C[k]).max() + np.abs(A[k]).max() + np.abs(B[k]).max()
        case.close(out[k], C[k], 'intersection', rtol=1e-7, atol=1e-7 * s)
        # the defining equations
        case.close(out[k] @ A[k], A[k] @ A[k], 'intersection', rtol=1e-6,
                   atol=1e-7 * s * s)
        case.close(out[k] @ B[k], B[k] @ B[k], 'intersection', rtol=1e-6,
                   atol=1e-7 * s * s)
    case.sig('inter', n)


WORKLOADS = [('basics', basics, 300, 6000), ('rotate', rotate, 500, 8000),
             ('project', project, 500, 8000), ('vectors', vectors, 400, 8000),
             ('intersect', intersect, 200, 3000)]
