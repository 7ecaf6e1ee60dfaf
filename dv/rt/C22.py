"""executable contract: the single-file seek program"""
import os, io, shutil, tempfile, contextlib, logging
import numpy as np
from riptide import TimeSeries, ffa_search, find_peaks
import riptide.apps.rseek as M
from riptide.peak_detection import Peak
from dv.rt.C13 import INF
RULE = 'command lines with random documented options on written presto (.inf/.dat) and sigproc (.tim) files; random peak lists substituted for the search result, with groups whose gaps are just below or above the radius and tied S/N; non-trivial: at least 3 peaks'
def gen(rng, tier, w, nw):
    k = 0
    while True:
        k += 1
        yield {'full': k % 8 == 1, 'n': rng.choice([0, 1, 2, 3, rng.randint(4, 40)]), 'seed': rng.getrandbits(30), 'fmt': rng.choice(['presto', 'sigproc']), 'opts': [rng.random() for _ in range(9)]}
def nontrivial(c): return c['full'] or c['n'] >= 3
DEF = {'Pmin': 1.0, 'Pmax': 10.0, 'bmin': 240, 'bmax': 260, 'smin': 7.0, 'wtsp': 1.5, 'rmed_width': 4.0, 'rmed_minpts': 101, 'clrad': 0.2}
TYPE = {'Pmin': float, 'Pmax': float, 'bmin': int, 'bmax': int, 'smin': float, 'wtsp': float, 'rmed_width': float, 'rmed_minpts': int, 'clrad': float}
def write(d, fmt, x, ts, dm):
    if fmt == 'presto':
        b = os.path.join(d, 'x'); x.astype('float32').tofile(b + '.dat')
        s = INF.format(base='x', ra='12:00:00', dec='-45:15:00', tsamp=ts, dm=repr(dm), flo=1182., bw=400., nchan=1024, cbw=.390625)
        open(b + '.inf', 'w').write(s.replace('=  16\n', '=  %d\n' % x.size)); return b + '.inf'
    import struct
    st = lambda v: struct.pack('i', len(v)) + v.encode()
    f = os.path.join(d, 'x.tim')
    with open(f, 'wb') as o:
        o.write(st('HEADER_START'))
        for k, v in (('source_name', 'abc'), ):
            o.write(st(k) + st(v))
        for k, v in (('machine_id', 0), ('telescope_id', 4), ('nchans', 1), ('nbits', 32), ('nifs', 1), ('data_type', 2), ('nbeams', 1), ('ibeam', 1), ('barycentric', 0)): o.write(st(k) + struct.pack('i', v))
        for k, v in (('src_raj', 120000.0), ('src_dej', -451500.0), ('tstart', 59000.0), ('tsamp', ts), ('refdm', dm), ('fch1', 1182.), ('foff', -400.), ('az_start', 0.), ('za_start', 0.)): o.write(st(k) + struct.pack('d', v))
        o.write(st('HEADER_END')); o.write(x.astype('float32').tobytes())
    return f
def expect(peaks, clrad, length):
    """the brightest peak of every group, decreasing S/N (None when a gap is too close to the radius to tell)"""
    if not peaks: return []
    r = clrad / length
    o = sorted(peaks, key=lambda p: p.freq)
    gr = [[o[0]]]
    for a, b in zip(o, o[1:]):
        if abs(b.freq - a.freq - r) < 1e-9 * r: return None
        if b.freq - a.freq > r: gr.append([])
        gr[-1].append(b)
    return sorted(gr, key=lambda k: -max(p.snr for p in k))
def table(df, gr):
    if gr is None: return None
    if df is None: return None if not gr else 'no table although there are peaks'
    if not gr: return 'a table although there are no peaks'
    if set(df.columns) != {'period', 'freq', 'width', 'ducy', 'dm', 'snr'}: return 'columns %r' % (list(df.columns),)
    if len(df) != len(gr): return '%d rows for %d groups of peaks' % (len(df), len(gr))
    s = df['snr'].tolist()
    if s != sorted(s, reverse=True): return 'rows are not in decreasing order of S/N'
    rows = [tuple(r[k] for k in ('period', 'freq', 'width', 'ducy', 'dm', 'snr')) for r in df.to_dict('records')]
    for k in gr:
        m = max(p.snr for p in k)
        ok = [tuple(getattr(p, a) for a in ('period', 'freq', 'width', 'ducy', 'dm', 'snr')) for p in k if p.snr == m]
        hit = [r for r in rows if r in ok]
        if len(hit) != 1: return 'the brightest peak %r of a group has %d rows' % (ok[0], len(hit))
    return None
def run(argv):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try: a = M.get_parser().parse_args(argv)
        except SystemExit as e: raise RuntimeError('the command line %r is rejected' % (argv,))
        return a, M.run_program(a)
def check(c):
    g = np.random.RandomState(c['seed'] & 0x7fffffff); u = c['opts']
    d = tempfile.mkdtemp(prefix='dvrt'); root = logging.getLogger(); h0, l0 = list(root.handlers), root.level
    saved = {k: getattr(M, k) for k in ('ffa_search', 'find_peaks')}
    try:
        n, ts, dm = 3000, 2e-3, float(g.choice([0., 12.5]))
        x = g.normal(size=n).astype('float32'); per = .11 + .3 * g.rand(); x[((np.arange(n) * ts / per) % 1) < .06] += g.choice([0, 1, 2.])
        f = write(d, c['fmt'], x, ts, dm)
        V = {'Pmin': .1 + .1 * u[0], 'Pmax': .25 + .2 * u[1], 'bmin': 12 + int(6 * u[2]), 'bmax': 19 + int(5 * u[3]), 'smin': 4 + 3 * u[4], 'wtsp': 1.3 + u[5], 'rmed_width': .5 + u[6], 'rmed_minpts': 11 + 2 * int(10 * u[7]), 'clrad': .05 + u[8]}
        if c['seed'] % 3 == 0: V['clrad'] = 1; V['rmed_width'] = 1
        given = dict(V)
        for k in ('smin', 'wtsp', 'rmed_width', 'rmed_minpts', 'clrad'):
            if g.rand() < .3: del given[k]
        argv = [('-f' if g.rand() < .5 else '--format'), c['fmt'], f]
        for k in given: argv += ['--' + k, repr(given[k]) if not isinstance(given[k], str) else given[k]]
        A = dict(DEF, **{k: TYPE[k](v) for k, v in given.items()})
        if c['full']:
            a, df = run(argv)
            for k in A:
                if getattr(a, k) != A[k]: return 'option %s is %r instead of %r' % (k, getattr(a, k), A[k])
            s = (TimeSeries.from_presto_inf if c['fmt'] == 'presto' else TimeSeries.from_sigproc)(f)
            pg = ffa_search(s, period_min=A['Pmin'], period_max=A['Pmax'], bins_min=A['bmin'], bins_max=A['bmax'], rmed_width=A['rmed_width'], rmed_minpts=A['rmed_minpts'], wtsp=A['wtsp'], fpmin=1, ducy_max=.3)[1]
            ps = find_peaks(pg, smin=A['smin'], clrad=A['clrad'])[0]
            return table(df, expect(ps, A['clrad'], n * ts))
        # substituted peaks
        T = n * ts; rad = A['clrad'] / T
        fr = 3 + np.cumsum(g.choice([0, .5, .999999, 1.000001, 1.5, 50.], size=c['n'])) * rad
        lev = g.choice(np.arange(5, 30, .5), size=g.randint(1, 9))
        ps = [Peak(period=float(1 / q), freq=float(q), width=int(g.randint(1, 5)), ducy=float(g.uniform(.01, .2)), iw=0, ip=i, snr=float(g.choice(lev)), dm=dm) for i, q in enumerate(fr)]
        g.shuffle(ps)
        used = []
        def fp(*a, **k): used.append('p'); return list(map(tuple_peak, ps)), {}
        def fs(*a, **k): used.append('s'); return (a[0] if a else k.get('tseries')), None
        M.find_peaks, M.ffa_search = fp, fs
        a, df = run(argv)
        if sorted(used) != ['p', 's']: return None      # the program reaches the search differently: nothing was substituted
        with contextlib.redirect_stderr(io.StringIO()): a = M.get_parser().parse_args(['-f', 'presto', 'x'])
        for k in DEF:
            if getattr(a, k) != DEF[k]: return 'default of option %s is %r instead of %r' % (k, getattr(a, k), DEF[k])
        return table(df, expect(ps, A['clrad'], T))
    finally:
        for k, v in saved.items(): setattr(M, k, v)
        for h in list(root.handlers):
            if h not in h0: root.removeHandler(h)
        root.setLevel(l0); shutil.rmtree(d)
def tuple_peak(p): return Peak(*p) if not isinstance(p, Peak) else p
