"""executable contract: time series operations, in place and out of place"""
import numpy as np, math
from riptide import TimeSeries
from riptide.metadata import Metadata
from dv.rt.ref import arr
from dv.rt.C03 import compare
from dv.rt.C08 import refmed
RULE = 'random lengths, sampling times, operations and parameters, with and without metadata, chained operations; non-trivial when the operation succeeds'

def gen(rng, tier, w, nw):
    while True:
        n = rng.choice([rng.randint(1, 40), rng.randint(2, 2000)])
        ts = rng.choice([1.0, 0.5, 64e-6, 0.001, rng.uniform(1e-4, 2)])
        op = rng.choice(['normalise', 'deredden', 'downsample', 'normalise', 'init'])
        c = {'op': op, 'n': n, 'tsamp': ts, 'data': rng.choice(['int', 'gauss', 'uniform', 'small']), 'dtype': rng.choice(['float32', 'float32', 'float64', 'int32']), 'seed': rng.getrandbits(30), 'offset': rng.choice([0, 0, 3, -7.5]), 'md': rng.random() < .7}
        if op == 'deredden': c['width'] = rng.choice([rng.uniform(0.5, n + 2), rng.randint(1, n + 1), 2 * rng.randint(0, n // 2) + 1]) * ts; c['minpts'] = rng.choice([None, 1, 3, 5, 101, rng.randint(1, 30)])
        if op == 'downsample': c['f'] = rng.choice([math.exp(rng.uniform(0, math.log(n + 1))), float(rng.randint(1, n)), 0.5, n + 1.0, 1.0])
        yield c
def nontrivial(c): return c['n'] > 1

def fast_ref(x, w, mp):
    """(values or None) of the fast running median"""
    n = len(x); sc = int(max(1, w / float(mp)))
    if w < 1 or mp % 2 == 0 or sc > n: return None
    if sc == 1: return refmed(x, w) if w % 2 == 1 and w < n else None
    m = n // sc
    if not mp < m: return None
    lo = x[:m * sc].astype(float).reshape(m, sc).mean(axis=1)
    return np.interp(np.arange(n), np.arange(m) * sc + (sc - 1) / 2.0, refmed(lo, mp))

def mk(c):
    x = arr(c['seed'], (c['n'],), c['data'], 'float64') + c['offset']
    x = np.ascontiguousarray(x.astype(c['dtype']))
    md = Metadata({'source_name': 'J0', 'dm': 12.5, 'fname': '/a/b.dat', 'mjd': 55000.25, 'extra': [1, 2, {'a': 1}]}) if c['md'] else None
    return x, md
def state(ts): return np.array(ts.data), ts.tsamp, dict(ts.metadata)
def sameraw(a, b): return a[0].dtype == b[0].dtype and np.array_equal(a[0], b[0]) and a[1] == b[1] and a[2] == b[2]

def check(c):
    x, md = mk(c); x0 = x.copy(); md0 = dict(md) if md is not None else None
    n, tsamp = c['n'], c['tsamp']
    for cp in (True, False):
        t = TimeSeries(x, tsamp, metadata=md, copy=cp)
        if t.data.dtype != np.float32 or t.data.shape != (n,) or not np.array_equal(t.data, x.astype('float32')): return 'construction changes the data'
        if t.tsamp != tsamp or t.metadata['tobs'] != n * tsamp or t.nsamp != n or t.length != n * tsamp: return 'construction: sampling time, length or tobs is wrong (tobs %r, expected %r)' % (t.metadata['tobs'], n * tsamp)
        if cp and np.shares_memory(t.data, x): return 'copy=True keeps a reference to the given array'
        if md is not None and (dict(md) != md0 or t.metadata is md): return 'the given metadata are modified'
        if md is not None and any(t.metadata[k] != v for k, v in md0.items() if k != 'tobs'): return 'metadata are not carried over'
    if c['op'] == 'init': return None
    t = TimeSeries(x, tsamp, metadata=md, copy=True)
    d = t.data.astype(float)
    if c['op'] == 'normalise':
        sd = d.std()
        if not sd > 1e-3 * (1e-30 + np.abs(d).max()): return None
        ref, rt, call, tol = (d - d.mean()) / sd, tsamp, (lambda o, **k: o.normalise(**k)), 2e-5 * (1 + np.abs(d).max() / sd)
    elif c['op'] == 'deredden':
        w = int(round(c['width'] / tsamp)); mp = c['minpts'] if c['minpts'] is not None else 101
        r = fast_ref(t.data, w, mp)
        ref, rt = (None if r is None else d - r), tsamp
        kw = {} if c['minpts'] is None else {'minpts': c['minpts']}
        call, tol = (lambda o, **k: o.deredden(c['width'], **k, **kw)), 2e-5 * np.abs(d).max() + 1e-30
    else:
        f = c['f']; ok = 1 < f <= n
        ref, rt = (True if ok else None), tsamp * f
        call, tol = (lambda o, **k: o.downsample(f, **k)), 0
    s0 = state(t)
    try: out = call(t)
    except (ValueError, IndexError):
        if ref is not None: return '%s raises an exception for valid arguments' % c['op']
        if not sameraw(state(t), s0): return 'the time series is modified although %s raised an exception' % c['op']
        return None
    if ref is None: return '%s accepts invalid arguments' % c['op']
    if not sameraw(state(t), s0): return 'out-of-place %s modifies the original' % c['op']
    if out is None or not isinstance(out, TimeSeries) or out is t: return 'out-of-place %s does not return a new time series' % c['op']
    if np.shares_memory(out.data, t.data) or out.metadata is t.metadata: return 'out-of-place %s shares data or metadata with the original' % c['op']
    if out.data.dtype != np.float32: return '%s gives %s data' % (c['op'], out.data.dtype)
    if c['op'] == 'downsample':
        e = compare(t.data, out.data, n, c['f'])
        if e: return e
    elif out.data.shape != (n,) or not np.all(np.abs(out.data - ref) <= tol): return '%s: wrong values' % c['op']
    if abs(out.tsamp - rt) > 1e-12 * rt: return '%s: sampling time is %r instead of %r' % (c['op'], out.tsamp, rt)
    if out.metadata['tobs'] != len(out.data) * out.tsamp: return '%s: the recorded observation length is %r, not number of samples times sampling time (%r)' % (c['op'], out.metadata['tobs'], len(out.data) * out.tsamp)
    m1 = dict(out.metadata); m1.pop('tobs'); m0 = dict(s0[2]); m0.pop('tobs')
    if m1 != m0: return '%s: the metadata differ' % c['op']
    if call(t, inplace=False) is None: return 'inplace=False returns None'
    r = call(t, inplace=True)
    if r is not None: return 'in-place %s does not return None' % c['op']
    if not sameraw(state(t), state(out)): return 'in-place %s gives another object than out-of-place (tsamp %r/%r, tobs %r/%r, data equal: %r)' % (c['op'], t.tsamp, out.tsamp, t.metadata['tobs'], out.metadata['tobs'], bool(np.array_equal(t.data, out.data)))
    if not np.array_equal(x, x0): return 'the array given at construction (with copy=True) is modified'
