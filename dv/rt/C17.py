"""executable contract: SIGPROC files"""
import os, struct, tempfile, math
import numpy as np
from riptide import TimeSeries
from riptide.reading import SigprocHeader
from riptide.reading.sigproc import sigproc_keydb, parse_float_coord
from riptide.metadata import Metadata
RULE = 'random header keys (standard and declared extra ones) of every type, in random order, with random values, followed by random samples; headers without start flag, with unknown keys, several channels, other depths, 8 bits without signedness; non-trivial: at least one sample'
KEYS = {'str': 'filename telescope rawdatafile obs_date obs_time', 'int': 'telescope_id machine_id data_type barycentric pulsarcentric nsamples nifs nbeams ibeam hdrlen orig_hdrlen new_hdrlen sampsize',
    'float': 'az_start za_start fch1 foff fchannel flux period pb ecc asini bandwidth fbottom ftop accel'}
KEYS = {k: t for t, l in KEYS.items() for k in l.split()}
TY = {'str': str, 'int': int, 'float': float, 'bool': bool}
def gen(rng, tier, w, nw):
    k = 0
    while True:
        k += 1
        c = {'seed': rng.getrandbits(30), 'n': rng.choice([1, 2, 3, rng.randint(1, 300)]), 'bits': rng.choice([32, 8]), 'signed': rng.choice([True, False]), 'extra': rng.random() < .5, 'bad': None}
        if k % 4 == 0: c['bad'] = rng.choice(['start', 'unknown', 'nchans', 'nbits', 'signed', 'extra'])
        yield c
def nontrivial(c): return c['n'] >= 1
def st(v): v = v.encode(); return struct.pack('<i', len(v)) + v
def pack(v, t): return st(v) if t == 'str' else struct.pack({'int': '<i', 'float': '<d', 'bool': '<B'}[t], v)
def rand(r, t):
    if t == 'str': return ''.join(r.choice(list('abcXYZ019 _-+./'), int(r.integers(1, 12))))
    if t == 'int': return int(r.choice([0, 1, -1, 2**31 - 1, -2**31, int(r.integers(-1000, 1000))]))
    if t == 'bool': return bool(r.integers(2))
    return float(r.choice([0.0, -1.5, 1e300, float(r.normal() * 10 ** int(r.integers(-5, 6)))]))
def coord(neg, d, m, s): return (-1 if neg else 1) * (d * 10000.0 + m * 100.0 + s)
def check(c):
    r = np.random.default_rng(c['seed']); tmp = tempfile.mkdtemp(prefix='dvC17'); f = os.path.join(tmp, 'x.tim')
    try: return run(c, r, tmp, f)
    finally:
        for n in os.listdir(tmp): os.remove(os.path.join(tmp, n))
        os.rmdir(tmp)
def run(c, r, tmp, f):
    ra = (int(r.integers(0, 24)), int(r.integers(0, 60)), round(float(r.uniform(0, 59.9)), 2)); neg = bool(r.integers(2))
    de = (int(r.choice([0, int(r.integers(0, 90))])), int(r.integers(0, 60)), round(float(r.uniform(0, 59.9)), 2))
    ts = float(r.choice([64e-6, 0.001, 1.0]))
    it = [('nchans', 1, 'int'), ('nbits', c['bits'], 'int'), ('tsamp', ts, 'float'), ('src_raj', coord(False, *ra), 'float'), ('src_dej', coord(neg, *de), 'float')]
    if c['bits'] == 8 or r.random() < .3: it.append(('signed', c['signed'], 'bool'))
    for k, t in (('source_name', 'str'), ('refdm', 'float'), ('tstart', 'float')):
        if r.random() < .7: v = rand(r, t); it.append((k, abs(v) if t == 'float' else v, t))
    for k in r.permutation(sorted(KEYS))[:int(r.integers(0, 12))]: it.append((str(k), rand(r, KEYS[str(k)]), KEYS[str(k)]))
    ex = {}
    if c['extra']:
        for j in range(int(r.integers(1, 4))):
            t = str(r.choice(['str', 'int', 'float', 'bool'])); k = 'extra%d' % j; ex[k] = TY[t]; it.append((k, rand(r, t), t))
        if r.random() < .3 and not any(k == 'nifs' for k, _, _ in it): ex['nifs'] = float; it.append(('nifs', rand(r, 'float'), 'float'))
    it = [it[i] for i in r.permutation(len(it))]
    want = {k: v for k, v, t in it}
    bad = c['bad']; start = 'HEADER_START'
    def setv(k, v):
        for i, (a, _, t) in enumerate(it):
            if a == k: it[i] = (k, v, t)
    if bad == 'start': start = str(r.choice(['HEADER_STARt', 'HEADER_END', 'xHEADER_START', 'HEADER']))
    elif bad == 'unknown': it.insert(int(r.integers(len(it) + 1)), ('unheard_of', 1, 'int'))
    elif bad == 'extra': it.insert(int(r.integers(len(it) + 1)), ('extra0' if not ex else 'extra9', 1, 'int'))
    elif bad == 'nchans': setv('nchans', int(r.integers(2, 300)))
    elif bad == 'nbits': setv('nbits', int(r.choice([16, 64, 1, 4, 2, 24])))
    elif bad == 'signed':
        it = [x for x in it if x[0] != 'signed']; setv('nbits', 8)
    before = dict(sigproc_keydb)
    h = st(start) + b''.join(st(k) + pack(v, t) for k, v, t in it) + st('HEADER_END')
    if c['bits'] == 8: x = r.integers(-128, 128, c['n']).astype(np.int8) if c['signed'] else r.integers(0, 256, c['n']).astype(np.uint8)
    else: x = np.float32(r.choice([1, 1e-30, 1e30]) * r.normal(size=c['n']))
    open(f, 'wb').write(h + x.tobytes())
    if bad is None:
        try: sh = SigprocHeader(f, extra_keys=ex)
        except Exception as e: return 'valid header refused: %r' % e
        if dict(sh) != want or any(type(sh[k]) is not type(want[k]) for k in want): return 'header pairs %r, wrote %r' % (dict(sh), want)
        if sh.bytesize != len(h): return 'header size %r, wrote %d bytes' % (sh.bytesize, len(h))
        if sh.nsamp != c['n'] or not math.isclose(sh.tobs, c['n'] * ts, rel_tol=1e-12): return 'nsamp %r tobs %r of %d samples' % (sh.nsamp, sh.tobs, c['n'])
        if sh.fname != os.path.abspath(f): return 'fname %r' % sh.fname
    try: t = TimeSeries.from_sigproc(f, extra_keys=ex)
    except Exception as e: return None if bad is not None else 'valid file refused: %r' % e
    finally:
        if sigproc_keydb != before: return 'the table of standard keys has changed'
    if bad is not None: return 'accepted a file that must be refused (%s)' % bad
    if t.data.dtype != np.float32 or t.data.shape != (c['n'],) or not np.array_equal(t.data, x.astype(np.float32)): return 'samples %r, wrote %r' % (t.data[:5], x[:5])
    if t.tsamp != ts: return 'tsamp %r' % t.tsamp
    m = t.metadata
    if not math.isclose(m['tobs'], c['n'] * ts, rel_tol=1e-12): return 'tobs %r' % m['tobs']
    for a, b in (('dm', 'refdm'), ('mjd', 'tstart'), ('source_name', 'source_name')):
        if m[a] != want.get(b): return 'metadata %s is %r, header %s is %r' % (a, m[a], b, want.get(b))
    for k in want:
        if m.get(k) != want[k]: return 'metadata %s is %r instead of %r' % (k, m.get(k), want[k])
    if m['fname'] != os.path.realpath(f): return 'metadata fname %r' % m['fname']
    sg = -1 if neg else 1
    wr, wd = ra[0] + ra[1] / 60. + ra[2] / 3600., sg * (de[0] + de[1] / 60. + de[2] / 3600.)
    if abs(m['skycoord'].ra.hour - wr) > 1e-6 or abs(m['skycoord'].dec.deg - wd) > 1e-6: return 'coordinates %r, wrote %r %r' % (m['skycoord'], wr, wd)
