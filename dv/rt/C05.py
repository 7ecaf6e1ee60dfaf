"""executable contract: the trial grid of libcpp.periodogram / ffa_search"""
import numpy as np
from riptide import libcpp
from dv.rt.grid import *
RULE = 'random data lengths, sampling times, period and bin ranges, including period ranges beyond the data length and invalid parameters; non-trivial when there are trials in two or more cycles or bin counts'
_last = {}

def gen(rng, tier, w, nw):
    for bad in range(7): yield {'N': 500, 'tsamp': 1.0, 'pmin': 10.0, 'pmax': 20.0, 'bmin': 10, 'bmax': 11, 'bad': bad}
    for N in range(1 + w, 60, nw): yield {'N': N, 'tsamp': 1.0, 'pmin': 4.0, 'pmax': 200.0, 'bmin': 4, 'bmax': 5}
    while True:
        N, t, a, b, c, d = rand_params(rng, rng.random() < .1)
        yield {'N': N, 'tsamp': t, 'pmin': a, 'pmax': b, 'bmin': c, 'bmax': d}

def nontrivial(c): return c['bmax'] > c['bmin'] or c['pmax'] > 1.5 * c['pmin']

BAD = [dict(tsamp=0.0), dict(pmin=0.0), dict(pmax=10.0), dict(bmin=1, pmin=30.0, pmax=40.0), dict(bmax=9), dict(pmin=9.99), dict(tsamp=-1.0)]
def call(c):
    x = np.zeros(c['N'], 'float32')
    return libcpp.periodogram(x, c['tsamp'], np.asarray([1], dtype='uint64'), c['pmin'], c['pmax'], c['bmin'], c['bmax'])

def check(c):
    if c.get('bad') is not None:
        d = dict(c); d.update(BAD[c['bad']])
        try: call(d)
        except ValueError: return None
        return 'inconsistent parameters are accepted: %r' % d
    n0 = int(np.floor(c['N'] / (c['pmin'] / (c['tsamp'] * c['bmin'])) * (1 + 1e-12)))
    try: P, B, S = call(c)
    except IndexError:
        # numpy arrays without elements cannot be returned by the native call: a search with no trial at all
        exp = [1 for k, f, tau, n in cycles(*[c[k] for k in ('N', 'tsamp', 'pmin', 'pmax', 'bmin', 'bmax')]) for b in range(c['bmin'], c['bmax'] + 1) if n and b <= n and count(tau, b, n // b, c['pmax'])[0] > 0]
        return 'a search with trials raises IndexError' if exp else None
    e, rows = match(P, B, c['N'], c['tsamp'], c['pmin'], c['pmax'], c['bmin'], c['bmax'])
    if e: return e
    if len(P):
        if P[0] < c['pmin'] * (1 - 1e-9) or P[-1] >= c['pmax'] * (1 + 1e-9): return 'periods %r .. %r outside [%r, %r)' % (P[0], P[-1], c['pmin'], c['pmax'])
        d = np.diff(P)
        if np.any(d < -1e-9 * P[1:]): return 'periods are not increasing at trial %d' % int(np.argmin(d))
        if B.min() < c['bmin'] or B.max() > c['bmax']: return 'bin counts out of range'
