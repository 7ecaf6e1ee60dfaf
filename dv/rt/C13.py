"""executable contract: DM trial selection"""
import numpy as np, math
from riptide.pipeline.dmiter import select_dms, DMIterator
RULE = 'random sets of distinct trial DMs (unordered, with large gaps, dense, one element), DM ranges, bands and widths; iteration with every chunk size; full iterator objects on written .inf files; non-trivial when several trials are selected'
KDM = 1.0 / 2.41e-4
def gen(rng, tier, w, nw):
    while True:
        n = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(2, 200)])
        step = rng.choice([0.01, 0.1, 1.0, 10.0, 100.0])
        kind = rng.choice(['uniform', 'grid', 'log', 'gaps'])
        fmin = rng.choice([1100.0, 400.0, 1300.0, 58.0]); bw = rng.choice([1.0, 50.0, 300.0])
        yield {'n': n, 'step': step, 'kind': kind, 'fmin': fmin, 'fmax': fmin + bw, 'nchans': rng.choice([1, 16, 1024]), 'wmin': rng.choice([1e-4, 1e-3, 1e-2, 0.1]), 'lo': rng.choice([None, None, 0.0, rng.random()]), 'hi': rng.choice([None, None, rng.random()]), 'seed': rng.getrandbits(30), 'chunk': rng.randint(1, 7), 'full': rng.random() < .04, 'cap': rng.choice([None, 45.0, 5.0, 1.0])}
def nontrivial(c): return c['n'] >= 4
def dms(c):
    g = np.random.RandomState(c['seed'] & 0x7fffffff); n = c['n']
    if c['kind'] == 'uniform': x = g.uniform(0, n * c['step'], size=n)
    elif c['kind'] == 'grid': x = np.arange(n) * c['step']
    elif c['kind'] == 'log': x = np.exp(g.uniform(0, 7, size=n))
    else: x = np.cumsum(g.choice([c['step'] * .01, c['step'], 30 * c['step']], size=n))
    x = np.unique(np.round(x, 3)); g.shuffle(x); return x
def verify(sel, dm, lo, hi, c, wmin=None):
    avail = np.sort(dm[(dm >= lo) & (dm <= hi)])
    sel = [float(s) for s in sel]
    if not set(sel) <= set(avail.tolist()): return 'a selected DM is not an available trial in range'
    if any(b <= a for a, b in zip(sel, sel[1:])): return 'the selected DMs are not strictly increasing: %r' % sel
    if sel[0] != avail[0] or sel[-1] != avail[-1]: return 'the selection does not begin and end with the extreme trials: %r of %r..%r' % ([sel[0], sel[-1]], avail[0], avail[-1])
    k = KDM * (c['fmin'] ** -2 - c['fmax'] ** -2); cw = (c['fmax'] - c['fmin']) / c['nchans']; mid = (c['fmax'] + c['fmin']) / 2
    ks = KDM * ((mid - cw / 2) ** -2 - (mid + cw / 2) ** -2)
    rad = lambda d: max(wmin or c['wmin'], ks * d) / k
    gap = lambda a, b: (b - rad(b)) - (a + rad(a))
    eps = lambda b: 1e-9 * (abs(b) + rad(b))
    pos = {v: i for i, v in enumerate(avail.tolist())}
    for a, b in zip(sel, sel[1:]):
        if gap(a, b) > eps(b) and pos[b] != pos[a] + 1: return 'a gap remains between the selected DMs %r and %r although there are trials in between' % (a, b)
        # the selected trial is the farthest one that the run of trials without a gap reaches
        if pos[b] + 1 < len(avail):
            nx = avail[pos[b] + 1]
            if gap(a, nx) <= -eps(nx) and all(gap(a, q) <= eps(q) for q in avail[pos[a] + 1:pos[b] + 2]): return 'selected DM %r could be replaced by %r without leaving a gap from %r' % (b, float(nx), a)
    return None
class It(DMIterator):
    def __init__(self, sel, md): self.selected_dms, self.metadata_dict = sel, md
def check(c):
    dm = dms(c)
    span = dm.max() - dm.min()
    lo = dm.min() if c['lo'] is None else dm.min() + c['lo'] * span
    hi = dm.max() if c['hi'] is None else lo + c['hi'] * span
    args = (lo, hi, c['fmin'], c['fmax'], c['nchans'], c['wmin'])
    any_ = bool(((dm >= lo) & (dm <= hi)).any())
    d0 = dm.copy()
    try: sel = select_dms(dm if c['seed'] % 2 else dm.tolist(), *args)
    except ValueError: return 'select_dms raises ValueError although trials are in range' if any_ else None
    if not any_: return 'select_dms accepts an empty DM range'
    if not np.array_equal(dm, d0): return 'the input is modified'
    e = verify(sel, dm, lo, hi, c)
    if e: return e
    it = It(sel, {d: {'fname': 'f%r' % float(d)} for d in dm.tolist()})
    for ch in {c['chunk'], 1, len(sel), len(sel) + 1}:
        out = list(it.iterate_filenames(chunksize=ch))
        if [f for k in out for f in k] != ['f%r' % float(d) for d in sel]: return 'iterating in chunks of %d does not yield every selected file once in order' % ch
        if any(len(k) != ch for k in out[:-1]) or (out and not 0 < len(out[-1]) <= ch): return 'chunks of %d files have sizes %r' % (ch, [len(k) for k in out])
    for d in sel:
        if it.get_filename(d) != 'f%r' % float(d): return 'the file of DM %r is %r' % (d, it.get_filename(d))
    if c['full']: return full(c, dm)
INF = ''' Data file name without suffix          =  {base}
 Telescope used                         =  Parkes
 Instrument used                        =  Multibeam
 Object being observed                  =  Pulsar
 J2000 Right Ascension (hh:mm:ss.ssss)  =  {ra}
 J2000 Declination     (dd:mm:ss.ssss)  =  {dec}
 Data observed by                       =  Kenji Oba
 Epoch of observation (MJD)             =  59000.000000
 Barycentered?           (1=yes, 0=no)  =  1
 Number of bins in the time series      =  16
 Width of each time series bin (sec)    =  {tsamp}
 Any breaks in the data? (1=yes, 0=no)  =  0
 Type of observation (EM band)          =  Radio
 Beam diameter (arcsec)                 =  981
 Dispersion measure (cm-3 pc)           =  {dm}
 Central freq of low channel (Mhz)      =  {flo}
 Total bandwidth (Mhz)                  =  {bw}
 Number of channels                     =  {nchan}
 Channel bandwidth (Mhz)                =  {cbw}
 Data analyzed by                       =  Space Sheep
 Any additional notes:
    Lorem ipsum
'''
def full(c, dm):
    import tempfile, os, shutil
    from astropy.coordinates import SkyCoord
    d = tempfile.mkdtemp(prefix='dvrt')
    try:
        dm = dm[:12]
        dec = ['-00:30:00', '+60:00:00', '-45:15:00', '10:20:30'][c['seed'] % 4]
        fs = []
        for i, x in enumerate(dm):
            b = os.path.join(d, 'x_DM%d' % i); fs.append(b + '.inf')
            open(b + '.inf', 'w').write(INF.format(base=b, ra='12:00:00', dec=dec, tsamp=1e-3 * (1 + i % 3), dm=repr(float(x)), flo=c['fmin'], bw=c['fmax'] - c['fmin'], nchan=c['nchans'], cbw=(c['fmax'] - c['fmin']) / c['nchans']))
        b_ = SkyCoord('12:00:00', dec.lstrip('+'), unit=('hour', 'deg')).galactic.b.deg
        lo, hi = float(dm.min()), float(dm.max())
        if c['lo'] is not None: lo = lo + c['lo'] * (hi - lo)
        cap = math.inf if c['cap'] is None else c['cap'] / abs(math.sin(math.radians(b_)))
        top = min(hi, cap)
        ok = bool(((dm >= lo) & (dm <= top)).any())
        try: it = DMIterator(fs, lo if c['lo'] is not None else None, None, dmsinb_max=c['cap'], wmin=c['wmin'])
        except ValueError: return 'DMIterator raises ValueError although trials are in range' if ok else None
        if not ok: return 'DMIterator accepts an empty range'
        e = verify(it.selected_dms, dm, lo, top, c)
        if e: return 'DMIterator: ' + e
        names = {float(x): f for x, f in zip(dm, fs)}
        out = [os.path.realpath(f) for k in it.iterate_filenames(chunksize=c['chunk']) for f in k]
        if out != [os.path.realpath(names[float(s)]) for s in it.selected_dms]: return 'DMIterator: files %r' % out[:3]
        for s in it.selected_dms:
            if os.path.realpath(it.get_filename(s)) != os.path.realpath(names[float(s)]): return 'get_filename(%r) is another file' % s
        if it.tsamp_max() != max(1e-3 * (1 + i % 3) for i in range(len(dm))): return 'tsamp_max'
        return None
    finally: shutil.rmtree(d)
