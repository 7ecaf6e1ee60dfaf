"""executable contract: each S/N of the periodogram is the boxcar S/N of the FFA row of its trial"""
import numpy as np, math
import riptide
from riptide import libcpp
from dv.rt.grid import *
from dv.rt.ref import arr
RULE = 'random data and search parameters as for C05 with several widths; every trial (up to 400 per case) is recomputed; non-trivial when there are at least two trials'

def gen(rng, tier, w, nw):
    for f in (1, 2, 3, 4, 5):
        yield {'N': 600 * f, 'tsamp': 1.0, 'pmin': 10.0 * f, 'pmax': 21.0 * f, 'bmin': 10, 'bmax': 11, 'data': 'gauss', 'seed': f, 'widths': [1, 3, 2]}
    while True:
        N, t, a, b, c, d = rand_params(rng)
        ws = [rng.randint(1, c - 1) for _ in range(rng.randint(1, 4))]
        yield {'N': N, 'tsamp': t, 'pmin': a, 'pmax': b, 'bmin': c, 'bmax': d, 'data': rng.choice(['gauss', 'int', 'uniform']), 'seed': rng.getrandbits(30), 'widths': ws}

def nontrivial(c): return c['N'] > 4 * c['bmin']

def noisevar(N, f):
    k = math.floor(f); r = f - k; x = math.floor(N / f) * r
    return f - 1. / 3 if x > 1 else k - x + 2. / 3 * x * x

def check(c):
    x = arr(c['seed'], (c['N'],), c['data']); x0 = x.copy()
    W = np.asarray(c['widths'], dtype='uint64')
    try: P, B, S = libcpp.periodogram(x, c['tsamp'], W, c['pmin'], c['pmax'], c['bmin'], c['bmax'])
    except IndexError: return None
    if not np.array_equal(x, x0): return 'the input is modified'
    if not (len(P) == len(B) == S.shape[0]) or S.shape[1] != len(W): return 'sizes of periods %d, bins %d and S/N %r differ' % (len(P), len(B), S.shape)
    e, rows = match(P, B, c['N'], c['tsamp'], c['pmin'], c['pmax'], c['bmin'], c['bmax'])
    if e or rows is None: return None          # C05
    cache = {}
    step = max(1, len(rows) // 400)
    for i in range(0, len(rows), step):
        k, f, tau, n, b, r, s = rows[i]
        if f != 1 and abs(f - 1) < 1e-12: continue
        # the same period and number of bins may, to rounding, denote the last row of one cycle or the first of the next
        if P[i] >= min((b + 1) * tau, c['pmax']) * (1 - 1e-8) or (s == 0 and k > 0 and c['bmin'] == c['bmax']): continue
        key = (k, b)
        if key not in cache:
            if len(cache) > 6: cache.clear()
            y = x if f == 1 else riptide.downsample(x, f)
            q = y[:r * b].reshape(r, b)
            T = riptide.ffa2(np.ascontiguousarray(q))
            xr = math.floor(c['N'] / f) * (f - math.floor(f))
            if abs(xr - 1) < 1e-6 or (f - math.floor(f) > 1 - 1e-9): cache[key] = None
            else:
                sd = math.sqrt(r * noisevar(c['N'], f))
                cache[key] = (riptide.boxcar_snr(T, W, stdnoise=sd), float(np.abs(q).sum()) / sd)
        if cache[key] is None: continue
        ref, sc = cache[key]
        tol = 2e-4 * max(1e-3, np.abs(ref[s]).max()) + 2e-5 * sc / math.sqrt(r * b)
        if not np.all(np.abs(ref[s] - S[i]) <= tol):
            return 'S/N of trial %d (period %r, cycle %d, factor %r, %d bins, shift %d of %d rows) is %r instead of %r' % (i, float(P[i]), k, f, b, s, r, S[i].tolist(), ref[s].tolist())
