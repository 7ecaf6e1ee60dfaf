"""executable contract: running medians"""
import numpy as np
import riptide
from riptide import libcpp
from riptide.running_medians import running_median, fast_running_median
from dv.rt.ref import arr
RULE = 'random lengths, windows and values (ties, monotone, alternating), all lengths up to 9 with all windows; non-trivial when 3 <= window < length'

def gen(rng, tier, w, nw):
    for n in range(1, 14):
        for win in range(1, n + 3):
            for d in ('small', 'gauss', 'ramp', 'down', 'alt'): yield {'kind': 'slow', 'n': n, 'w': win, 'data': d, 'seed': n * 100 + win}
    while True:
        n = rng.choice([rng.randint(1, 40), rng.randint(1, 800)])
        k = 'fast' if rng.random() < .4 else 'slow'
        d = rng.choice(['small', 'gauss', 'int', 'ramp', 'down', 'alt', 'const'])
        w_ = rng.randint(1, max(1, n + 1)) if rng.random() < .3 else 2 * rng.randint(0, max(0, (n - 1) // 2)) + 1
        c = {'kind': k, 'n': n, 'w': w_, 'data': d, 'seed': rng.getrandbits(30)}
        if k == 'fast': c['w'] = rng.choice([w_, rng.randint(1, 3 * n)]); c['mp'] = rng.choice([1, 3, 5, 7, 11, 101, rng.randint(1, 30)])
        yield c

def nontrivial(c): return 3 <= c['w'] < c['n']

def data(c):
    n = c['n']
    if c['data'] == 'down': return np.arange(n)[::-1].astype('float32').copy()
    if c['data'] == 'alt': return (np.arange(n) % 2 * 5 - np.arange(n) % 3).astype('float32')
    if c['data'] == 'const': return np.full(n, 2.5, 'float32')
    return arr(c['seed'], (n,), c['data'])

def refmed(x, w):
    h = w // 2; n = len(x)
    idx = np.clip(np.arange(n)[:, None] + np.arange(-h, h + 1)[None, :], 0, n - 1)
    return np.median(x[idx], axis=1)

def check(c):
    x = data(c); x0 = x.copy(); n, w = c['n'], c['w']
    if c['kind'] == 'slow':
        ok = w % 2 == 1 and w < n
        for fn in (running_median, libcpp.running_median):
            try: y = fn(x, w)
            except ValueError:
                if ok: return 'running median of %d samples with window %d is rejected' % (n, w)
                continue
            if not ok: return 'running median of %d samples accepts window %d' % (n, w)
            if not np.array_equal(x, x0): return 'the input is modified'
            r = refmed(x, w)
            if y.shape != r.shape: return 'length %r' % (y.shape,)
            if not np.array_equal(np.asarray(y, float), r.astype(float)):
                i = int(np.argmax(np.asarray(y, float) != r)); return 'running median of %d samples, window %d, at %d: %r instead of %r' % (n, w, i, float(y[i]), float(r[i]))
        return None
    mp = c['mp']; sc = int(max(1, w / float(mp)))
    try: y = fast_running_median(x, w, mp)
    except (ValueError, IndexError) as e:
        if isinstance(e, IndexError) and n >= sc: raise
        if mp % 2 == 0: return None
        if sc == 1: return None if not (w % 2 == 1 and w < n) else 'fast running median rejects n=%d window=%d min_points=%d' % (n, w, mp)
        return None if not mp < n // sc else 'fast running median rejects n=%d window=%d min_points=%d' % (n, w, mp)
    if mp % 2 == 0: return 'fast running median accepts even min_points %d' % mp
    if not np.array_equal(x, x0): return 'the input is modified'
    if sc == 1:
        if not (w % 2 == 1 and w < n): return 'fast running median accepts window %d of %d' % (w, n)
        r = refmed(x, w)
        return None if np.array_equal(np.asarray(y, float), r.astype(float)) else 'fast running median without scrunching differs from the running median (n=%d window=%d)' % (n, w)
    m = n // sc
    if not mp < m: return 'fast running median accepts window %d min_points %d of %d samples' % (w, mp, n)
    lo = x[:m * sc].astype(float).reshape(m, sc).mean(axis=1)
    r = refmed(lo, mp)
    cen = np.arange(m) * sc + (sc - 1) / 2.0
    ref = np.interp(np.arange(n), cen, r)
    if y.shape != (n,): return 'fast running median of %d samples has %r' % (n, y.shape)
    tol = 1e-5 * (np.abs(x).max() + 1e-30)
    bad = np.where(~(np.abs(ref - y) <= tol))[0]
    if len(bad): return 'fast running median (n=%d window=%d min_points=%d) at %d is %r instead of %r' % (n, w, mp, bad[0], float(y[bad[0]]), float(ref[bad[0]]))
