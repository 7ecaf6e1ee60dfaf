"""executable contract: one-dimensional clustering"""
import numpy as np
from riptide.clustering import cluster1d
RULE = 'random points (ties, points exactly one radius apart, negative values, integers), radii from 0 up, sorted in either order or not, 0 to 400 points; non-trivial when there is more than one cluster'
def gen(rng, tier, w, nw):
    for n in range(0, 5):
        for r in (0.0, 1.0, -1.0):
            for mode in ('random', 'inc', 'dec'): yield {'n': n, 'r': r, 'mode': mode, 'kind': 'grid', 'seed': n, 'span': 4, 'dtype': 'float64'}
    while True:
        n = rng.choice([rng.randint(0, 8), rng.randint(1, 60), rng.randint(1, 400)])
        yield {'n': n, 'r': rng.choice([0.0, 1.0, 0.5, 2.0, rng.uniform(0, 3), -0.5]), 'mode': rng.choice(['random', 'random', 'inc', 'dec']), 'kind': rng.choice(['grid', 'uniform', 'blobs']), 'seed': rng.getrandbits(30), 'span': rng.choice([3, n, 2 * n + 1, 10 * n + 1]), 'dtype': rng.choice(['float64', 'float32', 'int64'])}
def nontrivial(c): return c['n'] > 2 and c['r'] >= 0
def check(c):
    g = np.random.RandomState(c['seed'] & 0x7fffffff); n, r = c['n'], c['r']
    if c['kind'] == 'grid': x = g.randint(-c['span'], c['span'] + 1, size=n) * (0.5 if c['dtype'] != 'int64' else 1)
    elif c['kind'] == 'uniform': x = g.uniform(-c['span'], c['span'], size=n)
    else: x = g.randint(0, 4, size=n) * 10.0 + g.normal(size=n)
    x = np.asarray(x).astype(c['dtype'])
    if c['mode'] != 'random': x = np.sort(x)
    if c['mode'] == 'dec': x = x[::-1].copy()
    x0 = x.copy()
    y = cluster1d(x, r, already_sorted=c['mode'] != 'random') if c['mode'] != 'random' or c['seed'] % 2 else cluster1d(x, r)
    if not np.array_equal(x, x0): return 'the input is modified'
    if n == 0: return None if len(y) == 0 else 'clusters of an empty input'
    if any(len(k) == 0 for k in y): return 'empty cluster'
    idx = np.concatenate([np.asarray(k) for k in y])
    if sorted(idx.tolist()) != list(range(n)): return 'the clusters of %d points do not contain every index exactly once' % n
    s = x[idx]; d = np.diff(s)
    if c['mode'] == 'dec': d = -d
    if (d < 0).any(): return 'clusters are not in sorted order'
    b = np.cumsum([len(k) for k in y])[:-1]
    want = np.where(abs(d) > r)[0] + 1
    if b.tolist() != want.tolist(): return '%d points, radius %r: cluster boundaries at sorted positions %r instead of %r' % (n, r, b.tolist()[:8], want.tolist()[:8])
