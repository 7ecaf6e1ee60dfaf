"""executable contract: ffa2 / ffa1 against the recursive definition"""
import numpy as np
import riptide
from riptide import libcpp
from dv.rt.ref import ffa_check, arr
RULE = 'random (m, p) blocks and 1-D series of random, integer-valued and impulse data; non-trivial when m >= 2'

def gen(rng, tier, w, nw):
    for m in range(1 + w, 41, nw):
        yield {'kind': '2d', 'm': m, 'p': 1 + (m * 7) % 23, 'data': 'int', 'seed': m}
        yield {'kind': 'impulse', 'm': m, 'p': 64 + m, 'row': m - 1, 'col': 3, 'seed': m}
    while True:
        big = rng.random() < 0.05
        m = rng.randint(1, 700 if big else 70); p = rng.randint(1, 300 if rng.random() < .3 else 24)
        if rng.random() < 0.25:
            yield {'kind': '1d', 'p': p, 'N': p * m + rng.randint(0, p - 1), 'data': rng.choice(['int', 'gauss']), 'seed': rng.getrandbits(30)}
        else:
            yield {'kind': '2d', 'm': m, 'p': p, 'data': rng.choice(['int', 'gauss', 'uniform']), 'seed': rng.getrandbits(30),
                   'layout': rng.choice(['c', 'c', 'f', 'strided', 'f64'])}

def nontrivial(c): return c.get('m', 2) >= 2

def check(c):
    if c['kind'] == '1d':
        x = arr(c['seed'], (c['N'],), c['data']); x0 = x.copy()
        y = riptide.ffa1(x, c['p'])
        if not np.array_equal(x, x0): return 'ffa1 modified its input'
        m = c['N'] // c['p']
        return ffa_check(x[:m * c['p']].reshape(m, c['p']), y, 'ffa1')
    if c['kind'] == 'impulse':
        x = np.zeros((c['m'], c['p']), 'float32'); x[c['row'], c['col']] = 1
    else:
        x = arr(c['seed'], (c['m'], c['p']), c['data'])
        l = c.get('layout', 'c')
        if l == 'f': x = np.asfortranarray(x)
        if l == 'strided':
            z = np.zeros((2 * c['m'], c['p']), 'float32'); z[::2] = x; x = z[::2]
        if l == 'f64': x = x.astype(float)
    x0 = x.copy()
    if x.dtype == np.float32 and not x.flags['C_CONTIGUOUS']:
        try: y = riptide.ffa2(x)
        except ValueError: return None
    else: y = riptide.ffa2(x)
    if not np.array_equal(x, x0): return 'ffa2 modified its input'
    return ffa_check(np.asarray(x, dtype='float32'), y, 'ffa2')
