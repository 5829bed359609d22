import numpy as np
import pandas as pd
import matplotlib.pyplot as plt

from solarspatialtools.visualization import vis_tools

ID = 'C29'
RULE = ('Figures drawn off screen over random axes and point clouds; the '
        'artists left on the axes are read back.  Distinct = (axis scales, '
        'content) and (container, size class, spread).')
REQUIRED = ['label-place', 'label-all', 'tick-lines', 'scale-kept',
            'foreign-kept', 'points', 'all-counted', 'counts', 'symmetric',
            'axes', 'keeps-input', 'bin-width']
ASSUMES = ['Finite points; the new figure is the current one.']
NPROC = 4
SPAN = {'d': 86400, 'h': 3600, 'm': 60, 's': 1}


def seconds(label):
    return float(label[:-1]) * SPAN[label[-1]]


def annotate(case):
    rng = case.rng
    fig, ax = plt.subplots()
    try:
        xs = ['linear', 'log'][rng.integers(0, 2)]
        ys = ['linear', 'log'][rng.integers(0, 2)]
        f = np.sort(10 ** rng.uniform(-5, 0, 30))
        c = rng.uniform(0.01, 1, 30)
        drawn = bool(rng.integers(0, 2))
        if drawn:
            ax.plot(f, c)
        ax.set_xscale(xs)
        ax.set_yscale(ys)
        case.note(scales=(xs, ys), drawn=drawn)
        case.sig('annotate', xs, ys, drawn)
        n0, t0 = len(ax.lines), len(ax.texts)
        case.call(vis_tools.annotate_fig, ax)
        case.ok((ax.get_xscale(), ax.get_yscale()) == (xs, ys), 'scale-kept',
                f'{ax.get_xscale()}, {ax.get_yscale()}')
        labels = ax.texts[t0:]
        case.ok(len({t.get_text() for t in labels}) == len(labels) >= 5,
                'label-all', str([t.get_text() for t in labels]))
        case.ok({t.get_text() for t in labels} ==
                {'1d', '12h', '1h', '30m', '10m', '1m', '30s', '15s', '5s'},
                'label-all')
        for t in labels:
            x = t.xy[0] if hasattr(t, 'xy') else t.get_position()[0]
            case.close(x, 1 / seconds(t.get_text()), 'label-place', rtol=1e-9,
                       msg=t.get_text())
        new = ax.lines[n0:]
        x = np.concatenate([np.asarray(q.get_xdata(), float) for q in new])
        got = np.unique(np.round(1 / x[np.isfinite(x)], 6))
        want = np.unique([seconds(t.get_text()) for t in labels])
        case.close(got, want, 'tick-lines', rtol=1e-6)
        if drawn:
            case.close(ax.lines[0].get_xdata(), f, 'foreign-kept')
            case.close(ax.lines[0].get_ydata(), c, 'foreign-kept')
    finally:
        plt.close('all')


def joint(case):
    rng = case.rng
    plt.close('all')
    try:
        n = int(rng.choice([1, 2, 20, 300]))
        spread = float(10 ** rng.uniform(-2, 1.3))
        x = rng.normal(size=n) * spread
        y = rng.normal(size=n) * spread * rng.choice([1, 0.3, 3])
        if rng.integers(0, 2):
            x, y = np.abs(x) + 0.01, np.abs(y)
        if rng.integers(0, 4) == 0:           # right on a bin edge
            x[0] = 0.25 * rng.integers(-8, 8)
            x[-1] = np.sign(x[-1] or 1) * 0.25 * np.ceil(
                np.max(np.abs(np.concatenate([x, y]))) / 0.25)
        q = rng.integers(0, 8)
        if q == 0:                            # everything at the origin
            x, y = np.zeros(n), np.zeros(n)
        elif q in (1, 2, 3):                  # one quadrant, y or x dominant
            x = np.abs(x) * [-1, 1][rng.integers(0, 2)]
            y = np.abs(y) * [-1, 1][rng.integers(0, 2)]
            if rng.integers(0, 2):
                x = x * 0.1
            else:
                y = y * 0.1
        kind = ['array', 'series', 'list'][rng.integers(0, 3)]
        mk = {'array': np.array, 'series': pd.Series, 'list': list}[kind]
        a, b = mk(x), mk(y)
        case.note(n=n, spread=spread, kind=kind)
        case.sig('joint', n, round(np.log10(spread)), kind)
        case.call(vis_tools.scatter_hist, a, b)
        case.close(np.asarray(a), x, 'keeps-input', rtol=0, atol=0)
        fig = plt.gcf()
        axs = fig.axes
        sc = [q for q in axs if q.collections]
        case.ok(len(sc) == 1, 'points', f'{len(sc)} scatter plots')
        off = np.asarray(sc[0].collections[0].get_offsets())
        case.close(off, np.stack([x, y], axis=1), 'points')
        bars = [q for q in axs if len(q.patches)]
        case.ok(len(bars) == 2, 'axes', f'{len(bars)} histograms')
        seen = []
        for q in bars:
            p = q.patches
            hor = len({round(r.get_x(), 9) for r in p}) == 1 and \
                (len(p) == 1 or len({round(r.get_y(), 9) for r in p}) > 1)
            lo = np.array([r.get_y() if hor else r.get_x() for r in p])
            w = np.array([r.get_height() if hor else r.get_width() for r in p])
            h = np.array([r.get_width() if hor else r.get_height() for r in p])
            seen.append(hor)
            v = y if hor else x
            case.close(h.sum(), n, 'all-counted', msg='y' if hor else 'x')
            case.close(w, np.full(len(w), 0.25), 'bin-width', rtol=1e-6)
            case.close(lo[0], -(lo[-1] + w[-1]), 'symmetric', atol=0.26,
                       rtol=0)
            near = np.abs(v[:, None] - np.append(lo, lo[-1] + w[-1])[None, :]
                          ).min() < 1e-9
            if not near:
                want = [np.sum((v >= a0) & (v < a0 + b0))
                        for a0, b0 in zip(lo, w)]
                case.close(h, want, 'counts')
        case.ok(sorted(seen) == [False, True], 'axes', str(seen))
        px, ph = sc[0].get_position(), None
        hx = bars[seen.index(False)].get_position()
        hy = bars[seen.index(True)].get_position()
        fig.canvas.draw()
        px = sc[0].get_position()
        hx = bars[seen.index(False)].get_position()
        hy = bars[seen.index(True)].get_position()
        case.ok(hx.y0 > px.y1 - 1e-6 and hy.x0 > px.x1 - 1e-6, 'axes',
                'histograms are not above and to the right')
    finally:
        plt.close('all')


WORKLOADS = [
    ('annotate', annotate, 40, 400),
    ('joint', joint, 40, 400),
]
