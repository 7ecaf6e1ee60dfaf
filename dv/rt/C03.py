"""executable contract: downsample against the integral of the step function"""
import numpy as np, math
from fractions import Fraction
import riptide
from riptide import TimeSeries
from dv.rt.ref import arr
RULE = 'random lengths and factors, factors equal or next to integers, divisors of N, N itself, and invalid factors; non-trivial when the factor is valid and not an integer'

def gen(rng, tier, w, nw):
    for N in (2, 3, 5, 10):
        for f in (1.0, 0.5, 0.0, -1.0, N + 0.001, float('nan'), float(N), math.nextafter(1.0, 2), math.nextafter(float(N), 0)): yield {'N': N, 'f': f, 'data': 'int', 'seed': N}
    while True:
        N = rng.choice([rng.randint(2, 40), rng.randint(2, 3000)])
        k = rng.random()
        if k < .2: f = float(rng.randint(1, N))
        elif k < .3: f = N / rng.randint(1, N)
        elif k < .4: f = math.nextafter(float(rng.randint(1, N)), rng.choice([0, 1e9]))
        elif k < .8: f = math.exp(rng.uniform(0, math.log(N)))
        elif k < .9: f = 1 + rng.random()
        else: f = rng.choice([-1., 0., .3, 1., N + rng.random() * 3, N * 2.])
        yield {'N': N, 'f': f, 'data': rng.choice(['int', 'gauss', 'uniform']), 'seed': rng.getrandbits(30), 'ts': rng.random() < .15}

def nontrivial(c): return 1 < c['f'] <= c['N'] and c['f'] != int(c['f'])

def check(c):
    N, f = c['N'], c['f']
    x = arr(c['seed'], (N,), c['data']); x0 = x.copy()
    ok = f > 1 and f <= N
    try: y = riptide.downsample(x, f)
    except ValueError:
        return 'downsampling %d samples by %r is rejected' % (N, f) if ok else None
    if not ok: return 'downsampling %d samples by the invalid factor %r is not rejected' % (N, f)
    if not np.array_equal(x, x0): return 'the input is modified'
    e = compare(x, y, N, f)
    if e: return e
    if c.get('ts'):
        ts = TimeSeries.from_numpy_array(x, 0.5)
        d = ts.downsample(f)
        if not np.array_equal(np.asarray(d.data), y): return 'TimeSeries.downsample differs from downsample'
    return None

def compare(x, y, N, f):
    q = Fraction(N) / Fraction(f); n = q.numerator // q.denominator
    if y.dtype != np.float32: return 'dtype %s' % y.dtype
    ok_n = {n}
    if abs(float(q) - round(float(q))) < 1e-9 * float(q): ok_n |= {round(float(q)), round(float(q)) - 1} if float(q) == round(float(q)) else {n}
    if len(y) not in ok_n or (len(y) != n and n * 1e-12 < abs(float(q - len(y)))): return 'downsampling %d samples by %r gives %d samples' % (N, f, len(y))
    C = np.concatenate([[0.0], np.cumsum(x.astype(float))])
    k = np.arange(len(y) + 1) * float(f); k = np.minimum(k, N)
    i = np.minimum(np.floor(k).astype(int), N)
    I = C[i] + (k - i) * np.append(x.astype(float), 0)[i]
    ref = np.diff(I)
    tol = np.abs(x).max() * (2e-6 * (f + 2) + 1e-5) + 1e-30
    bad = np.where(~(np.abs(ref - y) <= tol))[0]
    if len(bad): return 'output sample %d of %d samples downsampled by %r is %r instead of %r' % (bad[0], N, f, float(y[bad[0]]), float(ref[bad[0]]))
