"""executable contract: folding"""
import numpy as np, math
import riptide
from riptide import TimeSeries
from dv.rt.ref import arr
RULE = 'random lengths, periods, numbers of bins and sub-integration counts (including every count for short data, periods equal to the data length, non-dividing counts); non-trivial when 1 < subints < m'

def gen(rng, tier, w, nw):
    while True:
        n = rng.choice([rng.randint(2, 60), rng.randint(20, 3000)])
        ts = rng.choice([1.0, 0.5, 0.25, 64e-6, 0.003, rng.uniform(1e-4, 2)])
        b = rng.randint(1, max(1, min(n, rng.choice([4, 16, 64]))))
        f = rng.choice([1 + rng.random(), rng.uniform(1, max(1.01, n / b)), rng.uniform(1, max(1.01, n / b / 3)), 2.0, 1.5, n / b, 1.0, 0.7, n / b * 1.01])
        m = int(n / f) // b
        sub = rng.choice([None, None, 1, m, m - 1, m + 1, 0, -2, rng.randint(1, max(1, m)), rng.randint(1, max(1, m)), 2, 3])
        yield {'n': n, 'tsamp': ts, 'bins': b, 'period': f * b * ts, 'subints': sub, 'data': rng.choice(['int', 'gauss', 'uniform', 'ramp']), 'seed': rng.getrandbits(30), 'fsub': rng.random() < .1}
def nontrivial(c):
    m = int(c['n'] * c['tsamp'] / (c['period'] / c['bins'])) // c['bins']
    return c['subints'] is not None and 1 < c['subints'] < m

def integ(C, x, t):
    n = len(x); i = np.minimum(np.floor(t).astype(int), n)
    xe = np.concatenate([x, np.zeros((1,) + x.shape[1:])])
    fr = (t - i).reshape((-1,) + (1,) * (x.ndim - 1))
    return C[i] + fr * xe[i]

def check(c):
    n, tsamp, b, P, sub = c['n'], c['tsamp'], c['bins'], c['period'], c['subints']
    x = arr(c['seed'], (n,), c['data'])
    t = TimeSeries(x, tsamp, metadata={'dm': 1.5, 'x': [1]}, copy=True)
    s0 = np.array(t.data), t.tsamp, dict(t.metadata)
    T = n * tsamp; f = P / b / tsamp; m = int(n / f) // b if f > 0 else 0
    near = lambda a, q: abs(a - q) <= 1e-9 * max(abs(a), abs(q))
    edge = near(P, T) or near(P / b, tsamp) or near(n / f, round(n / f)) or near(n / f / b, round(n / f / b))
    bad = P > T or not P / b > tsamp or f > n or (sub is not None and (sub < 1 or sub > m))
    arg = sub if not (c['fsub'] and sub is not None) else float(sub)
    try: y = t.fold(P, b, subints=arg)
    except ValueError:
        if not sameraw(t, s0): return 'the time series is modified'
        return None if bad or edge else 'folding %d samples (tsamp %r) at period %r with %d bins and %r sub-integrations is rejected (%d periods)' % (n, tsamp, P, b, sub, m)
    if not sameraw(t, s0): return 'the time series is modified by folding'
    if bad: return None if edge else 'folding %d samples (tsamp %r) at period %r with %d bins and %r sub-integrations is not rejected (%d periods)' % (n, tsamp, P, b, sub, m)
    while n / f < b: f = math.nextafter(f, 0.0)          # exactly one period, up to rounding
    d = t.downsample(f).data.astype(float)
    m = len(d) // b
    rows = d[:m * b].reshape(m, b) / math.sqrt(m * f)
    if sub == 1 or m == 1: ref = rows.sum(axis=0)
    elif sub is None or sub == m: ref = rows
    else:
        C = np.concatenate([np.zeros((1, b)), np.cumsum(rows, axis=0)])
        ref = np.diff(integ(C, rows, np.arange(sub + 1) * (m / sub)), axis=0)
    if y.shape != ref.shape: return 'folding %d periods of %d bins with %r sub-integrations gives shape %r instead of %r' % (m, b, sub, y.shape, ref.shape)
    # the fold starts from the step-function integral of the data
    C1 = np.concatenate([[0.0], np.cumsum(x.astype(float))])
    full = np.diff(integ(C1, x.astype(float), np.minimum(np.arange(m * b + 1) * f, n))).reshape(m, b) / math.sqrt(m * f)
    tol = 3e-5 * (np.abs(x).max() * (f + 2) / math.sqrt(m * f) * (m / (sub or m) + 1)) + 1e-30
    if not np.all(np.abs(y - ref) <= tol): return 'folding %d samples at %r with %d bins, %r sub-integrations: wrong values' % (n, P, b, sub)
    if not np.all(np.abs(y.reshape(-1, b).sum(axis=0) - full.sum(axis=0)) <= tol * max(1, m)): return 'folding %d samples at %r with %d bins, %r sub-integrations: the sub-integrations do not add up to the folded data' % (n, P, b, sub)
def sameraw(t, s0): return np.array_equal(t.data, s0[0]) and t.data.dtype == s0[0].dtype and t.tsamp == s0[1] and dict(t.metadata) == s0[2]
