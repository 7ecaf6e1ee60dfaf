"""executable contract: ffafreq / ffaprd against the closed formula in rational arithmetic, and their relation to the transform"""
import numpy as np
from fractions import Fraction
import riptide
from riptide.libffa import ffafreq, ffaprd
RULE = 'random (N, p, dt) including N a multiple of p, N = p, one more or less than a multiple, large N; invalid arguments of every kind; non-trivial when valid'

def gen(rng, tier, w, nw):
    for N in range(1, 14):
        for p in range(0, 15): yield {'N': N, 'p': p, 'dt': 0.5}
    for N, p in ((10, 2.5), (10.0, 2), (10, -3), (-10, 3), (0, 2), (10, 1), (10, 0), (9.5, 2)): yield {'N': N, 'p': p, 'dt': 1.0}
    for dt in (0.0, -1.0, -1e-9): yield {'N': 100, 'p': 7, 'dt': dt}
    for N, p in ((4000000, 3), (4194304, 1024), (2 ** 31 + 12, 2 ** 20), (1000003, 997), (999997, 2)): yield {'N': N, 'p': p, 'dt': 64e-6}
    while True:
        p = rng.choice([rng.randint(2, 20), rng.randint(2, 2000)])
        m = rng.choice([rng.randint(1, 10), rng.randint(1, 500), rng.randint(1, 5000)])
        N = p * m + rng.choice([0, 0, 1, p - 1, rng.randrange(p)])
        dt = rng.choice([1.0, 10 ** rng.uniform(-6, 2)])
        if rng.random() < .05: N, p = rng.choice([(p - 1, p), (N, 1), (N, float(p)), (float(N), p), (N, N + 1)])
        yield {'N': N, 'p': p, 'dt': dt, 'np': rng.random() < .2}

def valid(c): return isinstance(c['N'], int) and isinstance(c['p'], int) and c['N'] > 0 and c['p'] > 1 and c['p'] <= c['N'] and c['dt'] > 0
def nontrivial(c): return valid(c)
def check(c):
    N, p, dt = c['N'], c['p'], c['dt']
    for name, fn in (('ffafreq', ffafreq), ('ffaprd', ffaprd)):
        try: v = fn(N, p, dt=dt)
        except ValueError as e:
            if valid(c): return '%s(%r, %r, dt=%r) raises ValueError: %s' % (name, N, p, dt, e)
            continue
        except Exception as e: return '%s(%r, %r, dt=%r) raises %s instead of ValueError' % (name, N, p, dt, type(e).__name__)
        if not valid(c): return '%s(%r, %r, dt=%r) is accepted' % (name, N, p, dt)
        m = N // p
        if v.shape != (m,): return '%s(%r, %r) has shape %r, the transform has %d rows' % (name, N, p, v.shape, m)
        idx = range(m) if m <= 600 else sorted(set([0, 1, m // 2, m - 2, m - 1] + list(range(0, m, m // 97))))
        d = Fraction(dt)
        for s in idx:
            f = (Fraction(1, p) - (Fraction(s, (m - 1) * p * p) if m > 1 else 0)) / d
            want = float(f if name == 'ffafreq' else 1 / f)
            if not abs(v[s] - want) <= 1e-12 * want: return '%s(%r, %r, dt=%r)[%d] = %r instead of %r' % (name, N, p, dt, s, float(v[s]), want)
        g = v if name == 'ffaprd' else -v
        # neighbours differ by more than rounding only if the step is resolvable in double precision
        if m > 1 and 1.0 / ((m - 1) * p) > 1e-13 and not np.all(np.diff(g) > 0): return '%s(%r, %r, dt=%r) is not strictly monotonic' % (name, N, p, dt)
        if name == 'ffafreq' and not v.min() > 0: return 'a trial frequency is not positive'
        if dt == 1.0:
            w = fn(N, p)
            if not np.array_equal(w, v): return '%s: dt does not default to 1' % name
