"""Cloud field synthesis written from the description of the method: weighted
octaves of linearly interpolated noise, a clear mask by threshold, edges from
the gradient of the mask, and the two ways of scaling to clear-sky index."""
import numpy as np


def bilinear(base, size):
    """base given at the corners and evenly inside -> size."""
    for ax in (0, 1):
        if base.shape[ax] == 1:
            base = np.repeat(base, 2, axis=ax)
    out = base
    for ax, n in ((0, size[0]), (1, size[1])):
        m = out.shape[ax]
        x = np.linspace(0, 1, n) * (m - 1)
        a = np.minimum(np.floor(x + 1e-12).astype(int), m - 2)
        f = x - a
        lo, hi = np.take(out, a, axis=ax), np.take(out, a + 1, axis=ax)
        f = f[:, None] if ax == 0 else f[None, :]
        out = lo * (1 - f) + hi * f
    return out


def stack(weights, scales, size):
    """Draws from numpy's global random stream."""
    out = np.zeros(size)
    for w, s in zip(weights, scales):
        cells = [max(int(n * 2.0 ** (1 - s)), 1) for n in size]
        out = out + w * bilinear(np.random.rand(*cells), size)
    return out


def sobel_power(mask):
    p = np.pad(np.asarray(mask, float), 1, mode='symmetric')
    d0 = p[2:, :] - p[:-2, :]
    d1 = p[:, 2:] - p[:, :-2]
    g0 = d0[:, :-2] + 2 * d0[:, 1:-1] + d0[:, 2:]
    g1 = d1[:-2, :] + 2 * d1[1:-1, :] + d1[2:, :]
    return g0 ** 2 + g1 ** 2


def box(a, k):
    """Mean over a k x k window centred as near as it can be."""
    lo, hi = k // 2, k - k // 2 - 1
    p = np.pad(a, ((lo, hi), (lo, hi)), mode='symmetric')
    n, m = a.shape
    out = np.zeros_like(a, dtype=float)
    for i in range(k):
        for j in range(k):
            out += p[i:i + n, j:j + m]
    return out / k ** 2


def lave(field, clear, edge, ktmean, ktmax, kt1, q=0.99):
    clear, edge = clear > 0, edge > 0
    if clear.all():
        return np.ones_like(field), 'clear'
    top = np.quantile(field[~clear], q)
    c = np.clip(1 - field * (1 - kt1) / top, 0, 1)
    ce = 1 + (c - c.min()) / (c.max() - c.min()) * (ktmax - 1)
    cloud = ~(clear | edge)
    need = field.size * ktmean - clear.sum() - ce[edge & ~clear].sum()
    how = 'unmatched'
    out = c.copy()
    if need > 0 and cloud.any():
        out = c * (need / cloud.sum()) / c[cloud].mean()
        how = 'matched'
    out[edge] = ce[edge]
    out[clear] = 1
    return out, how


def basic(field, clear, edge, ktmean, ktmax, kt1, q=0.999, flip=False,
          smooth=None):
    clear, edge = clear > 0, edge > 0
    src = field[~clear] if (~clear).any() else field
    top, low = np.quantile(src, q), np.quantile(src, 1 - q)
    f = (field - low) / (top - low)
    f = np.where(f > 1, 2 - f, f)
    f = np.where(f < 0, -f, f)
    if flip:
        f = 1 - f
    cloud = ~(clear | edge)
    out = np.zeros_like(field)
    out[edge] = 1 + f[edge] * (ktmax - 1)
    out[clear] = 1 if smooth is None else f[clear] * (1 - smooth) + smooth
    need = field.size * ktmean - out[~cloud].sum() - kt1 * cloud.sum()
    have = f[cloud].sum()
    # how near the decision is to its limits
    margin = min(abs(need), abs(need - have), abs(have - kt1 * cloud.sum()))
    if 0 < need < have and have > kt1 * cloud.sum():
        out[cloud] = f[cloud] * need / have + kt1
        return out, 'matched', margin
    out[cloud] = f[cloud] * (1 - kt1) + kt1
    return out, 'unmatched', margin
