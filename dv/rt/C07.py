"""executable contract: native functions stay inside their buffers (run under AddressSanitizer as well) and write every element they return;
arguments outside the contract raise an exception"""
import os
import numpy as np
from riptide import libcpp
RULE = 'all kernels on small sizes exhaustively and on random sizes, with factors at and next to divisors of the data length, widths up to bins-1, shifts beyond the length, periodogram parameters at their limits, and rejected arguments; non-trivial when the call is accepted and its buffers have more than 4 elements'
f32 = 'float32'

def gen(rng, tier, w, nw):
    for k in range(len(BAD)): yield {'f': 'bad', 'k': k}
    for n in range(1, 14):
        for k in (0, 1, 2, n - 1, n, n + 1, 2 * n, 5 * n + 3):
            yield {'f': 'roll', 'n': n, 'k': max(0, k)}
            yield {'f': 'cps', 'n': n, 'k': max(1, k)}
    for m in range(1 + w, 70, nw):
        for p in (1, 2, 3, 7): yield {'f': 'ffa', 'm': m, 'p': p}
    for n in range(2 + w, 40, nw):
        for k in range(1, n + 1):
            for u in (-1, 0, 1): yield {'f': 'ds', 'n': n, 'k': k, 'u': u}
    for p in range(2, 30):
        yield {'f': 'snr', 'm': 2, 'p': p, 'ws': sorted({1, p - 1, max(1, p // 2)})}
    for n in range(2, 20):
        for wd in range(1, n, 2): yield {'f': 'med', 'n': n, 'w': wd}
    if w == 0: yield {'f': 'ffa', 'm': 2 ** 24 + 5, 'p': 1}
    if w == 1: yield {'f': 'snr', 'm': 1, 'p': 3000000, 'ws': [1, 2999999]}
    while True:
        t = rng.random()
        if t < .2: yield {'f': 'ffa', 'm': rng.randint(1, 3000), 'p': rng.randint(1, 40)}
        elif t < .45:
            n = rng.choice([rng.randint(2, 300), rng.randint(1000, 100000)])
            yield {'f': 'ds', 'n': n, 'k': rng.randint(1, n), 'u': rng.randint(-3, 3)}
        elif t < .5:
            yield {'f': 'ds', 'n': 100003, 'k': rng.randint(1, 100003), 'u': rng.randint(-3, 3)}
        elif t < .6:
            p = rng.randint(2, 600)
            yield {'f': 'snr', 'm': rng.randint(1, 5), 'p': p, 'ws': [rng.randint(1, p - 1) for _ in range(rng.randint(1, 5))]}
        elif t < .7:
            n = rng.randint(2, 500); yield {'f': 'med', 'n': n, 'w': min(n - 1 - (n % 2 == 1), 2 * rng.randint(0, n) + 1) | 1 if n > 2 else 1}
        else:
            from dv.rt.grid import rand_params
            N, ts, a, b, c, d = rand_params(rng)
            ws = sorted({1, rng.randint(1, c - 1) if c > 1 else 1, c - 1})
            yield {'f': 'pgram', 'N': N, 'ts': ts, 'pmin': a, 'pmax': b, 'bmin': c, 'bmax': d, 'ws': ws}

def nontrivial(c): return c['f'] != 'bad' and max(c.get('n', 0), c.get('m', 0) * c.get('p', 0), c.get('N', 0)) > 4

X = lambda n: np.arange(n, dtype=f32)
W = lambda *a: np.asarray(a, dtype='uint64')
PG = lambda x, w, **k: libcpp.periodogram(x, k.get('tsamp', 1.0), w, k.get('pmin', 10.0), k.get('pmax', 20.0), k.get('bmin', 10), k.get('bmax', 11))
BAD = [
    ('rollback of a 2D array', lambda: libcpp.rollback(X(6).reshape(2, 3), 1)),
    ('rollback of a strided array', lambda: libcpp.rollback(X(12)[::2], 1)),
    ('fused_rollback_add of arrays of different lengths', lambda: libcpp.fused_rollback_add(X(6), X(5), 1)),
    ('fused_rollback_add of arrays of different lengths (second longer)', lambda: libcpp.fused_rollback_add(X(5), X(6), 1)),
    ('fused_rollback_add of a strided first array', lambda: libcpp.fused_rollback_add(X(12)[::2], X(6), 1)),
    ('fused_rollback_add of a strided second array', lambda: libcpp.fused_rollback_add(X(6), X(12)[::2], 1)),
    ('fused_rollback_add of 2D arrays', lambda: libcpp.fused_rollback_add(X(6).reshape(2, 3), X(6).reshape(2, 3), 1)),
    ('circular_prefix_sum of a strided array', lambda: libcpp.circular_prefix_sum(X(12)[::2], 3)),
    ('circular_prefix_sum of an empty array', lambda: libcpp.circular_prefix_sum(X(0), 3)),
    ('circular_prefix_sum of a 2D array', lambda: libcpp.circular_prefix_sum(X(6).reshape(2, 3), 3)),
    ('ffa2 of a 1D array', lambda: libcpp.ffa2(X(6))),
    ('ffa2 of a 3D array', lambda: libcpp.ffa2(X(8).reshape(2, 2, 2))),
    ('ffa2 of a transposed array', lambda: libcpp.ffa2(X(6).reshape(2, 3).T)),
    ('ffa2 of a column slice', lambda: libcpp.ffa2(X(12).reshape(3, 4)[:, 1:3])),
    ('snr1 with width 0', lambda: libcpp.snr1(X(6), W(0))),
    ('snr1 with width = size', lambda: libcpp.snr1(X(6), W(1, 6))),
    ('snr1 with no width', lambda: libcpp.snr1(X(6), W())),
    ('snr1 of a 2D array', lambda: libcpp.snr1(X(6).reshape(2, 3), W(1))),
    ('snr1 with noise 0', lambda: libcpp.snr1(X(6), W(1), 0.0)),
    ('snr1 of a strided array', lambda: libcpp.snr1(X(12)[::2], W(1))),
    ('snr1 with strided widths', lambda: libcpp.snr1(X(6), W(1, 9, 2, 9)[::2])),
    ('snr2 with width = cols', lambda: libcpp.snr2(X(6).reshape(2, 3), W(3))),
    ('snr2 with width > cols in the middle', lambda: libcpp.snr2(X(6).reshape(2, 3), W(1, 9, 2))),
    ('snr2 with width 0', lambda: libcpp.snr2(X(6).reshape(2, 3), W(0, 1))),
    ('snr2 with no width', lambda: libcpp.snr2(X(6).reshape(2, 3), W())),
    ('snr2 of a 1D array', lambda: libcpp.snr2(X(6), W(1))),
    ('snr2 with noise -1', lambda: libcpp.snr2(X(6).reshape(2, 3), W(1), -1.0)),
    ('snr2 of a transposed array', lambda: libcpp.snr2(X(6).reshape(2, 3).T, W(1))),
    ('snr2 with strided widths', lambda: libcpp.snr2(X(6).reshape(2, 3), W(1, 9, 2, 9)[::2])),
    ('snr2 with 2D widths', lambda: libcpp.snr2(X(6).reshape(2, 3), W(1, 2).reshape(1, 2))),
    ('downsample by 1', lambda: libcpp.downsample(X(6), 1.0)),
    ('downsample by less than 1', lambda: libcpp.downsample(X(6), 0.5)),
    ('downsample by more than the length', lambda: libcpp.downsample(X(6), 6.0000001)),
    ('downsample by a negative factor', lambda: libcpp.downsample(X(6), -2.0)),
    ('downsample of a strided array', lambda: libcpp.downsample(X(12)[::2], 2.0)),
    ('downsample of a 2D array', lambda: libcpp.downsample(X(6).reshape(2, 3), 2.0)),
    ('running_median with an even width', lambda: libcpp.running_median(X(6), 2)),
    ('running_median with width 0', lambda: libcpp.running_median(X(6), 0)),
    ('running_median with width = size', lambda: libcpp.running_median(X(5), 5)),
    ('running_median with width > size', lambda: libcpp.running_median(X(5), 7)),
    ('running_median of a strided array', lambda: libcpp.running_median(X(12)[::2], 3)),
    ('running_median of a 2D array', lambda: libcpp.running_median(X(12).reshape(3, 4), 3)),
    ('periodogram with width = bins_min', lambda: PG(X(500), W(1, 10))),
    ('periodogram with width 0', lambda: PG(X(500), W(0))),
    ('periodogram with no width', lambda: PG(X(500), W())),
    ('periodogram of a strided array', lambda: PG(X(1000)[::2], W(1))),
    ('periodogram with strided widths', lambda: PG(X(500), W(1, 99, 2, 99)[::2])),
    ('periodogram of a 2D array', lambda: PG(X(500).reshape(2, 250), W(1))),
    ('periodogram with tsamp 0', lambda: PG(X(500), W(1), tsamp=0.0)),
    ('periodogram with period_min 0', lambda: PG(X(500), W(1), pmin=0.0)),
    ('periodogram with period_max = period_min', lambda: PG(X(500), W(1), pmax=10.0)),
    ('periodogram with bins_max < bins_min', lambda: PG(X(500), W(1), bmax=9)),
    ('periodogram with period_min below tsamp * bins_min', lambda: PG(X(500), W(1), pmin=9.99)),
]

def check(c):
    f = c['f']
    if f == 'bad':
        name, fn = BAD[c['k']]
        try: fn()
        except (ValueError, TypeError, IndexError): return None
        return 'not rejected: ' + name
    if f == 'roll':
        x = X(c['n']); a = libcpp.rollback(x, c['k']); b = libcpp.fused_rollback_add(x, x, c['k'])
        if a.shape != x.shape or b.shape != x.shape: return 'rollback: the result has shape %r' % (a.shape,)
        if not np.array_equal(a, np.roll(x, -c['k'])): return 'rollback: wrong or unwritten elements'
        if not np.array_equal(b, x + np.roll(x, -c['k'])): return 'fused_rollback_add: wrong or unwritten elements'
    elif f == 'cps':
        x = X(c['n']); a = libcpp.circular_prefix_sum(x, c['k'])
        e = np.cumsum(np.resize(x, c['k']).astype(float))
        if a.shape != e.shape or not np.allclose(a, e, rtol=1e-5): return 'circular_prefix_sum: wrong or unwritten elements'
    elif f == 'ffa':
        x = np.ones((c['m'], c['p']), f32); a = libcpp.ffa2(x)
        if a.shape != x.shape or not np.all(a == np.float32(c['m'])): return 'ffa2 of a constant block: %d wrong or unwritten elements, first at %r' % (int(np.sum(a != c['m'])), np.argwhere(a != c['m'])[:1].tolist())
    elif f == 'ds':
        n = c['n']; fac = n / c['k']
        for _ in range(abs(c['u'])): fac = np.nextafter(fac, np.inf if c['u'] > 0 else 0)
        fac = float(fac); x = np.ones(n, f32)
        try: a = libcpp.downsample(x, fac)
        except ValueError: return None if not (1 < fac <= n) else 'downsample: a valid factor is rejected'
        if not 1 < fac <= n: return 'downsample: factor %r is accepted for %d samples' % (fac, n)
        if a.shape != (int(np.floor(n / fac)),): return 'downsample: %d samples in the result' % a.size
        if not np.allclose(a, fac, rtol=1e-4): return 'downsample of ones by %r: element %d is %r' % (fac, int(np.argmax(~np.isclose(a, fac, rtol=1e-4))), a[np.argmax(~np.isclose(a, fac, rtol=1e-4))])
    elif f == 'snr':
        x = np.zeros((c['m'], c['p']), f32); w = W(*c['ws'])
        a = libcpp.snr2(x, w, 1.0)
        if a.shape != (c['m'], len(w)) or np.any(a != 0): return 'snr2 of zeros: wrong or unwritten elements'
        a = libcpp.snr1(x[0], w, 1.0)
        if a.shape != (len(w),) or np.any(a != 0): return 'snr1 of zeros: wrong or unwritten elements'
    elif f == 'med':
        x = np.full(c['n'], 3, f32)
        try: a = libcpp.running_median(x, c['w'])
        except ValueError: return None if not (c['w'] % 2 and c['w'] < c['n']) else 'running_median: a valid width is rejected'
        if a.shape != x.shape or np.any(a != 3): return 'running_median of a constant: wrong or unwritten elements'
    elif f == 'pgram':
        x = np.zeros(c['N'], f32)
        try: P, B, S = libcpp.periodogram(x, c['ts'], W(*c['ws']), c['pmin'], c['pmax'], c['bmin'], c['bmax'])
        except IndexError: return None     # no trials: an array without elements
        except ValueError as e:
            return None if c['pmin'] < c['ts'] * c['bmin'] * (1 + 1e-9) else 'periodogram: valid parameters are rejected: %s' % e
        if not (len(P) == len(B) == len(S)) or S.shape[1:] != (len(c['ws']),): return 'periodogram: the lengths of the results differ'
        if np.any(~np.isfinite(P)) or np.any(P < c['pmin'] * (1 - 1e-9)) or np.any(P > c['pmax'] * (1 + 1e-9)): return 'periodogram: wrong or unwritten periods'
        if np.any(B < c['bmin']) or np.any(B > c['bmax']): return 'periodogram: wrong or unwritten bin numbers'
        if np.any(S != 0): return 'periodogram of zeros: wrong or unwritten S/N'
