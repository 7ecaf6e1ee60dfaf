"""executable contract: JSON save and load"""
import os, tempfile, math
import numpy as np, pandas
from astropy.coordinates import SkyCoord
import riptide
from riptide import TimeSeries, Periodogram, Candidate, Metadata, save_json, load_json
RULE = 'random nestings (lists, string-keyed dicts) of plain values, numpy scalars, arrays of every dtype, 0 to 4 dimensions, C, Fortran, strided, reversed, broadcast and byte-swapped layouts, empty arrays, tables, sky coordinates in several frames, time series, periodograms and candidates with and without a stored version; non-trivial: all'
DT = ['float32', 'float64', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'bool', 'complex64', 'complex128', '>f4', '>i8', '<f8', 'float16', 'S5', 'U3']
def gen(rng, tier, w, nw):
    k = 0
    while True:
        k += 1
        yield {'seed': rng.getrandbits(30), 'kind': ['array', 'table', 'sky', 'scalar', 'ts', 'pgram', 'cand', 'nest'][k % 8], 'indent': rng.choice([None, None, 2])}
def nontrivial(c): return True
def array(r, dt=None, shape=None):
    dt = dt or str(r.choice(DT)); nd = int(r.choice([0, 1, 1, 2, 2, 3, 4]))
    sh = shape or tuple(int(x) for x in r.integers(0 if r.random() < .15 else 1, 6, nd))
    n = int(np.prod(sh)); lay = str(r.choice(['C', 'F', 'strided', 'reversed', 'T', 'bcast', 'C']))
    if shape is None and lay in ('strided',) and sh: full = (sh[0] * 2,) + sh[1:]
    else: full = sh; lay = lay if lay != 'strided' else 'C'
    m = int(np.prod(full))
    if dt in ('S5', 'U3'): x = np.array([''.join(r.choice(list('abc '), 3)).strip() for _ in range(m)], dtype=dt).reshape(full) if m else np.zeros(full, dt)
    else:
        x = r.integers(-100, 100, full) if np.dtype(dt).kind in 'iu' else r.normal(size=full) * 10.0 ** int(r.integers(-3, 4))
        if np.dtype(dt).kind == 'c': x = x + 1j * r.normal(size=full)
        x = np.array(x)
        if np.dtype(dt).kind == 'u': x = np.abs(x)
        if np.dtype(dt).kind == 'f' and x.size and r.random() < .2: x.flat[0] = float(r.choice([np.nan, np.inf, -np.inf, -0.0]))
        x = x.astype(dt) if dt != 'bool' else np.array(x > 0)
    if lay == 'F': x = np.asfortranarray(x) if x.ndim else x
    elif lay == 'strided': x = x[::2]
    elif lay == 'reversed' and x.ndim: x = x[::-1]
    elif lay == 'T': x = np.ascontiguousarray(x.T).T if x.ndim > 1 else x
    elif lay == 'bcast' and x.ndim and shape is None: x = np.broadcast_to(x, (2,) + x.shape)
    return x
def table(r):
    cols = ['c%d' % i for i in range(int(r.integers(1, 5)))]; n = int(r.integers(1, 6))
    return pandas.DataFrame(r.normal(size=(n, len(cols))), columns=[str(x) for x in r.permutation(cols)])
def sky(r):
    a, b = float(r.uniform(0, 359.9)), float(r.uniform(-89, 89)); f = str(r.choice(['icrs', 'galactic', 'fk5']))
    return SkyCoord(a, b, unit='deg', frame=f)
def plain(r):
    return [None, True, False, 3, -7, 0.1, 1e300, float(r.normal()), 'text', '', 'é\n"', 12345678901234567890][int(r.integers(12))]
def meta(r, sk=True):
    d = {'source_name': str(r.choice(['J0000', 'x y'])), 'dm': float(abs(r.normal())), 'mjd': 59000.5, 'tobs': 12.5, 'note': 'abc', 'lst': [1, 2.5, None, 'x']}
    if r.random() < .3: d.pop('dm')
    m = Metadata(d)
    if sk and r.random() < .6: m['skycoord'] = sky(r)
    return m
def ts(r): return TimeSeries(np.float32(r.normal(size=int(r.integers(1, 50)))), float(r.choice([64e-6, 0.1, 1.0])), metadata=meta(r))
def pgram(r):
    n, k = int(r.integers(1, 9)), int(r.integers(1, 4))
    s = np.float32(r.normal(size=(n, k)))
    return Periodogram(np.arange(1, k + 1), np.sort(r.uniform(1, 2, n)), r.integers(240, 260, n).astype(np.uint32), np.asfortranarray(s) if r.random() < .4 else s, metadata=meta(r))
def cand(r):
    p = {'period': float(r.uniform(1, 2)), 'snr': np.float32(r.normal()), 'width': np.int64(3), 'dm': float(r.normal())}
    return Candidate(p, meta(r), table(r), np.float32(r.normal(size=(int(r.integers(1, 5)), 16))) if r.random() < .8 else np.float32(r.normal(size=16)))
def scalar(r):
    return [np.float32(0.1), np.float64(1e-300), np.int64(-2**62), np.uint8(255), np.int32(7), np.float16(0.5), np.uint64(2**63)][int(r.integers(7))]
def nest(r, d=0):
    k = r.random()
    if d < 3 and k < .3: return [nest(r, d + 1) for _ in range(int(r.integers(0, 4)))]
    if d < 3 and k < .6: return {str(x): nest(r, d + 1) for x in r.permutation(['a', 'b', 'data', 'shape', 'x y', 'type'])[:int(r.integers(0, 5))]}
    return [array, table, sky, ts, pgram, cand, scalar, plain][int(r.integers(8))](r)
def same(a, b, p='value'):
    """None, or how the loaded value b differs from the saved a"""
    if isinstance(a, np.ndarray):
        if type(b) is not np.ndarray or b.dtype != a.dtype or b.shape != a.shape: return '%s: array %s %r loads as %r %r' % (p, a.dtype, a.shape, getattr(b, 'dtype', type(b)), getattr(b, 'shape', None))
        return None if np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc') and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes() else '%s: array values differ' % p
    if isinstance(a, pandas.DataFrame):
        if not isinstance(b, pandas.DataFrame) or list(a.columns) != list(b.columns) or a.shape != b.shape: return '%s: table' % p
        return None if np.array_equal(a.values, b.values) else '%s: table values' % p
    if isinstance(a, SkyCoord):
        return None if isinstance(b, SkyCoord) and b.separation(a).arcsec < 1e-3 else '%s: sky coordinate %r loads as %r' % (p, a, b)
    if isinstance(a, (TimeSeries, Periodogram, Candidate)):
        if type(b) is not type(a): return '%s: %s loads as %s' % (p, type(a).__name__, type(b).__name__)
        at = {TimeSeries: ('data', 'tsamp', 'metadata'), Periodogram: ('widths', 'periods', 'foldbins', 'snrs', 'metadata'), Candidate: ('params', 'tsmeta', 'peaks', 'subints')}[type(a)]
        for k in at:
            m = same(getattr(a, k), getattr(b, k), p + '.' + k)
            if m: return m
        v = getattr(a, 'version', None) or riptide.__version__
        return None if getattr(b, 'version', None) == v else '%s: version %r loads as %r' % (p, v, getattr(b, 'version', None))
    if isinstance(a, np.generic): 
        return None if type(b) in (int, float) and b == a.item() else '%s: %r loads as %r' % (p, a, b)
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b): return '%s: keys %r load as %r' % (p, sorted(a), sorted(b) if isinstance(b, dict) else b)
        for k in a:
            m = same(a[k], b[k], '%s[%r]' % (p, k))
            if m: return m
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, list) or len(a) != len(b): return '%s: %d-element list loads as %r' % (p, len(a), b)
        for i, (x, y) in enumerate(zip(a, b)):
            m = same(x, y, '%s[%d]' % (p, i))
            if m: return m
        return None
    return None if type(a) is type(b) and (a == b or a != a and b != b) else '%s: %r loads as %r' % (p, a, b)
def check(c):
    r = np.random.default_rng(c['seed']); f = {'sky': sky, 'ts': ts, 'pgram': pgram, 'cand': cand, 'nest': nest, 'array': array, 'table': table, 'scalar': scalar}[c['kind']]
    x = f(r)
    if c['kind'] in ('ts', 'pgram', 'cand') and r.random() < .5: x.version = str(r.choice(['0.1.0', '9.9.9+5.gabc']))
    d = tempfile.mkdtemp(prefix='dvC19'); fn = os.path.join(d, 'x.json')
    try:
        kw = {} if c['indent'] is None else {'indent': c['indent']}
        try: save_json(fn, x, **kw); y = load_json(fn)
        except Exception as e: return 'exception %r' % e
        return same(x, y)
    finally:
        if os.path.exists(fn): os.remove(fn)
        os.rmdir(d)
