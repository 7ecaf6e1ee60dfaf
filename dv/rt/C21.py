"""executable contract: pipeline search over files and ranges, clustering of the peaks"""
import os, shutil, tempfile, copy
import numpy as np
from riptide import TimeSeries, ffa_search, find_peaks
from riptide.peak_detection import Peak
from riptide.pipeline.pipeline import Pipeline
from dv.rt.C13 import INF
RULE = 'clustering of random sorted peak lists with gaps at, just below and just above the radius; full pipeline searches of written .inf/.dat files with 1..6 trial DMs, 1..3 ranges and 1..4 processes; non-trivial: at least 4 peaks'
def gen(rng, tier, w, nw):
    k = 0
    while True:
        k += 1
        yield {'full': k % 15 == 1, 'n': rng.choice([0, 1, 2, 3, rng.randint(4, 60)]), 'seed': rng.getrandbits(30), 'nf': rng.randint(1, 6), 'nr': rng.randint(1, 3), 'np': rng.randint(1, 4), 'one': rng.random() < .2}
def nontrivial(c): return c['full'] or c['n'] >= 4
CONF = {'processes': 2, 'data': {'format': 'presto', 'fmin': None, 'fmax': None, 'nchans': None}, 'dmselect': {'min': None, 'max': None, 'dmsinb_max': None}, 'dereddening': {'rmed_width': 3.0, 'rmed_minpts': 21},
        'clustering': {'radius': 0.2}, 'harmonic_flagging': {'denom_max': 10, 'phase_distance_max': 1.0, 'dm_distance_max': 3.0, 'snr_distance_max': 3.0},
        'candidate_filters': {'dm_min': None, 'snr_min': None, 'remove_harmonics': False, 'max_number': None}, 'plot_candidates': False, 'ranges': []}
class It:
    def __init__(self, t): self.t = t
    def tobs_median(self): return self.t
def groups(p, clusters, peaks, rad):
    """the clusters partition the peaks, cut exactly where adjacent frequencies differ by more than the radius"""
    key = {}
    for i, q in enumerate(peaks): key.setdefault(id(q), []).append(i)
    got = [[id(q) for q in k] for k in clusters]
    flat = [x for k in got for x in k]
    if sorted(flat) != sorted(id(q) for q in peaks): return 'the clusters do not contain every peak exactly once'
    if any(not k for k in got): return 'a cluster is empty'
    fr = {id(q): q.freq for q in peaks}
    o = sorted(peaks, key=lambda q: q.freq)
    lab = {x: i for i, k in enumerate(got) for x in k}
    for a, b in zip(o, o[1:]):
        if abs(b.freq - a.freq - rad) < 1e-9 * rad: continue
        if (lab[id(a)] == lab[id(b)]) != (b.freq - a.freq <= rad): return 'peaks at adjacent frequencies %r and %r with radius %r: %s cluster' % (a.freq, b.freq, rad, 'same' if lab[id(a)] == lab[id(b)] else 'different')
    return None
def check(c):
    if c['full']: return full(c)
    g = np.random.RandomState(c['seed'] & 0x7fffffff)
    t = float(g.uniform(50, 5000)); crad = float(g.choice([.1, .2, 1.])); rad = crad / t
    f = 1 + np.cumsum(g.choice([0, .5, .999999, 1.000001, 1.5, 3., 100.], size=c['n'])) * rad
    ps = [Peak(period=float(1 / x), freq=float(x), width=1, ducy=.1, iw=0, ip=i, snr=float(g.uniform(6, 9)), dm=float(g.choice([0., 5.]))) for i, x in enumerate(f[::-1])]
    p = Pipeline.__new__(Pipeline)
    p.config = dict(CONF, clustering={'radius': crad}); p.dmiter = It(t); p.peaks = list(ps); p.clusters = []
    p.cluster_peaks()
    if len(p.peaks) != len(ps) or any(a is not b for a, b in zip(p.peaks, ps)): return 'clustering changes the peak list'
    e = groups(p, p.clusters, ps, rad)
    if e: return e
def full(c):
    g = np.random.RandomState(c['seed'] & 0x7fffffff)
    d = tempfile.mkdtemp(prefix='dvrt')
    try:
        # DM trials that overlap only with the next one: all of them are needed
        nf, n = c['nf'], 4000; fs = []; dms = []
        for i in range(nf):
            ts = 2e-3 * (1 if c['one'] else 1 + i % 2); dm = 10.0 * i
            b = os.path.join(d, 'x_DM%d' % i); fs.append(b + '.inf'); dms.append(dm)
            x = g.normal(size=n).astype('float32') + np.linspace(0, 5, n).astype('float32')
            per = .11 + .07 * g.rand(); ph = (np.arange(n) * ts / per) % 1
            x[ph < .06] += 1.5 * g.randint(0, 3)
            x.astype('float32').tofile(b + '.dat')
            s = INF.format(base='x_DM%d' % i, ra='12:00:00', dec='-45:15:00', tsamp=ts, dm=repr(dm), flo=1182., bw=400., nchan=1024, cbw=.390625)
            open(b + '.inf', 'w').write(s.replace('=  16\n', '=  %d\n' % n))
        conf = copy.deepcopy(CONF); conf['processes'] = c['np']
        edges = .1 + .06 * np.arange(c['nr'] + 1)
        for i in range(c['nr']):
            fa = {'period_min': float(edges[i]), 'period_max': float(edges[i + 1]), 'bins_min': 14 + 3 * i, 'bins_max': 17 + 3 * i}
            if g.rand() < .5: fa.update(fpmin=int(g.randint(2, 9)), wtsp=1.4, ducy_max=.3)
            fp = {'smin': float(g.choice([3.5, 5.0]))}
            if g.rand() < .5: fp.update(segwidth=4.0, nstd=4.0, minseg=int(g.choice([5, 10])), polydeg=1, clrad=.2)
            conf['ranges'].append({'name': 'r%d' % i, 'ffa_search': fa, 'find_peaks': fp, 'candidates': {'bins': 16, 'subints': 4}})
        lo = 5.0 if nf > 1 and g.rand() < .4 else None; hi = 10.0 * nf - 15 if nf > 2 and g.rand() < .4 else None
        conf['dmselect'].update(min=lo, max=hi)
        inside = {f for f, x in zip(fs, dms) if (lo is None or x >= lo) and (hi is None or x <= hi)}
        g.shuffle(fs)
        p = Pipeline(copy.deepcopy(conf)); p.prepare(fs); p.search()
        sel = [p.dmiter.get_filename(x) for x in p.dmiter.selected_dms]
        if len(set(sel)) != len(sel): return 'a file is selected twice'
        if {os.path.realpath(f) for f in sel} != {os.path.realpath(f) for f in inside}: return 'selected files %r instead of %r' % (sorted(map(os.path.basename, sel)), sorted(map(os.path.basename, inside)))
        want = []; tobs = {}
        for f in fs: tobs[f] = TimeSeries.from_presto_inf(f).length
        for f in sel:
            ts = TimeSeries.from_presto_inf(f).deredden(3.0, minpts=21).normalise()
            for r in conf['ranges']: want += find_peaks(ffa_search(ts, deredden=False, already_normalised=True, **r['ffa_search'])[1], **r['find_peaks'])[0]
        got = list(p.peaks)
        k = lambda q: tuple(q)
        if sorted(map(k, got)) != sorted(map(k, want)): return 'the pipeline holds %d peaks; searching every selected file in every range finds %d' % (len(got), len(want))
        if any(a.period > b.period for a, b in zip(got, got[1:])): return 'the peaks are not in order of increasing period'
        p.cluster_peaks()
        if [k(q) for q in p.peaks] != [k(q) for q in got]: return 'clustering changes the peak list'
        return groups(p, p.clusters, got, .2 / float(np.median(list(tobs.values()))))
    finally: shutil.rmtree(d)
