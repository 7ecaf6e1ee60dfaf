"""reference helpers for the executable contracts (numpy only; independent of riptide's code)"""
import numpy as np

def arr(seed, shape, kind, dtype='float32'):
    r = np.random.RandomState(seed & 0x7fffffff)
    if kind == 'int': a = r.randint(-8, 9, size=shape)
    elif kind == 'small': a = r.randint(0, 3, size=shape)
    elif kind == 'uniform': a = r.uniform(-1, 1, size=shape)
    elif kind == 'gauss': a = r.normal(size=shape)
    elif kind == 'zeros': a = np.zeros(shape)
    elif kind == 'ramp': a = np.arange(int(np.prod(shape))).reshape(shape)
    else: raise ValueError(kind)
    return np.ascontiguousarray(a.astype(dtype))

def close(a, b, tol=1e-5, scale=None):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape: return False
    if a.size == 0: return True
    s = scale if scale is not None else max(1e-30, np.abs(b).max(), np.abs(a).max())
    return bool(np.all(np.abs(a - b) <= tol * s))

def roundings(s, n, m):
    """allowed values of s*(n-1)/(m-1) rounded to nearest: both neighbours only at a tie that is not exact in binary"""
    num, den = s * (n - 1), m - 1
    lo, r = divmod(num, den)
    if 2 * r != den: return [lo if 2 * r < den else lo + 1]
    return [lo + 1] if 2 * (n - 1) == den else [lo, lo + 1]

def ffa_check(x, y, name, depth=0):
    import riptide
    m, p = x.shape
    if y.shape != (m, p): return '%s: shape %r instead of %r' % (name, y.shape, (m, p))
    if y.dtype != np.float32: return '%s: dtype %s' % (name, y.dtype)
    sc = float(np.abs(x.astype(float)).max() * m + 1e-30)
    if m == 1:
        if not np.array_equal(x, y): return '%s: the transform of a single row is not that row' % name
        return None
    if not close(y[0], x.astype(float).sum(axis=0), 2e-6, sc): return '%s: row 0 is not the sum of the rows without rotation (m=%d p=%d)' % (name, m, p)
    if not close(y.astype(float).sum(axis=1), np.full(m, x.astype(float).sum()), 1e-5, sc * p): return '%s: a row does not sum every input row exactly once (m=%d p=%d)' % (name, m, p)
    h = m // 2
    xh, xt = np.ascontiguousarray(x[:h]), np.ascontiguousarray(x[h:])
    yh, yt = riptide.ffa2(xh), riptide.ffa2(xt)
    for s in range(m):
        good = False
        for a in roundings(s, h, m):
            for b in roundings(s, m - h, m):
                if close(y[s].astype(float), yh[a].astype(float) + np.roll(yt[b].astype(float), -(s - b)), 2e-6, sc): good = True
        if not good: return '%s: row %d of the transform of a (%d, %d) block is not the sum of the rotated rows of its halves' % (name, s, m, p)
    if depth < 12:
        e = ffa_check(xh, yh, name, depth + 1) if (m <= 24 or (m + depth) % 2 == 0) else None
        if e: return e
        return ffa_check(xt, yt, name, depth + 1) if (m <= 24 or (m + depth) % 2) else None
