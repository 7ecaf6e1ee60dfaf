"""executable contract: candidate filters, search range lookup, cluster summaries, candidate building"""
import numpy as np
from fractions import Fraction
from riptide import TimeSeries
from riptide.peak_detection import Peak
from riptide.pipeline.peak_cluster import PeakCluster, clusters_to_dataframe
from riptide.pipeline.pipeline import Pipeline
RULE = 'random cluster sets with tied and boundary S/N and DM values, all filter settings; contiguous search ranges in shuffled order and periods at, between and beyond their bounds; candidate building from in-memory series; non-trivial with at least 4 clusters'
def gen(rng, tier, w, nw):
    while True:
        n = rng.choice([0, 1, 2, rng.randint(3, 8), rng.randint(5, 40)])
        yield {'n': n, 'seed': rng.getrandbits(30), 'dm': rng.random() < .5, 'snr': rng.random() < .5, 'harm': rng.choice([None, False, True]), 'nmax': rng.choice([None, 1, 2, 5, n, n + 1]) or None,
               'nr': rng.randint(1, 5), 'build': rng.random() < .03}
def nontrivial(c): return c['n'] >= 4
def mk(g, n, levels):
    out = []
    for i in range(n):
        ps = []
        for _ in range(g.randint(1, 5)):
            f = float(g.uniform(.1, 3)); w = int(g.randint(1, 9))
            ps.append(Peak(period=1 / f, freq=f, width=w, ducy=w / 64., iw=0, ip=int(g.randint(1000)), snr=float(levels[g.randint(len(levels))]), dm=float(g.choice([0., 5., 10., 20.]))))
        out.append(PeakCluster(ps, rank=i))
    return out
class It:
    def __init__(self, names): self.names = names; self.asked = []
    def get_filename(self, dm): self.asked.append(dm); return self.names[dm]
def check(c):
    g = np.random.RandomState(c['seed'] & 0x7fffffff); n = c['n']
    levels = g.choice(np.arange(5, 30, .5), size=g.randint(1, 12))
    cl = mk(g, n, levels)
    for i, k in enumerate(cl):
        if i and g.rand() < .3: k.parent_fundamental = cl[g.randint(i)]; k.hfrac = Fraction(int(g.randint(1, 9)), int(g.randint(1, 9)))
    edges = np.cumsum(g.uniform(.1, 2, size=c['nr'] + 1))
    rg = [{'name': 'r%d' % i, 'ffa_search': {'period_min': float(edges[i]), 'period_max': float(edges[i + 1]), 'bins_min': 10 + i, 'bins_max': 20 + i}, 'find_peaks': {'smin': 5. + i}, 'candidates': {'bins': 16 + i, 'subints': 2 + i}} for i in range(c['nr'])]
    order = list(g.permutation(c['nr'])); rgs = [rg[i] for i in order]
    p = Pipeline.__new__(Pipeline)
    fp = {'dm_min': float(g.choice([0., 5., 7.])) if c['dm'] else None, 'snr_min': float(g.choice(levels)) if c['snr'] else None, 'remove_harmonics': c['harm'], 'max_number': c['nmax']}
    p.config = {'ranges': rgs, 'candidate_filters': fp, 'dereddening': {'rmed_width': 5.0, 'rmed_minpts': 11}}
    # every list of ranges
    for x in list(edges) + [float(np.nextafter(e, 0)) for e in edges] + [float(np.nextafter(e, 99)) for e in edges] + list(g.uniform(edges[0] * .5, edges[-1] * 1.2, size=4)):
        x = float(x); r = p.get_search_range(x)
        want = rg[0] if x < edges[0] else rg[-1] if x >= edges[-1] else next(q for q in rg if q['ffa_search']['period_min'] <= x < q['ffa_search']['period_max'])
        if r != want: return 'period %r is given range %r instead of %r' % (x, r and r['name'], want['name'])
    # filters
    p.clusters = list(cl); p.clusters_filtered = []
    best = lambda k: max(q.snr for q in k)
    bdm = lambda k: next(q for q in k if q.snr == best(k)).dm
    p.apply_candidate_filters()
    if len(p.clusters) != n or any(a is not b for a, b in zip(p.clusters, cl)): return 'the list of clusters is changed'
    for k in cl:
        if k.centre.snr != best(k): return 'the centre of a cluster is not its brightest peak'
    ok = [k for k in cl if (fp['dm_min'] is None or k.centre.dm >= fp['dm_min']) and (fp['snr_min'] is None or best(k) >= fp['snr_min']) and not (c['harm'] and k.parent_fundamental is not None)]
    out = p.clusters_filtered; ids = [id(k) for k in out]
    if len(set(ids)) != len(ids): return 'a cluster is retained twice'
    if not set(ids) <= {id(k) for k in ok}: return 'a cluster that does not pass the filters is retained'
    if c['nmax'] is None:
        if len(out) != len(ok): return '%d clusters retained, %d pass the filters' % (len(out), len(ok))
    else:
        if len(out) != min(c['nmax'], len(ok)): return '%d clusters retained, %d pass the filters, maximum %d' % (len(out), len(ok), c['nmax'])
        if sorted(map(best, out), reverse=True) != sorted(map(best, ok), reverse=True)[:len(out)]: return 'the retained clusters are not the brightest'
    # summaries
    for k in cl:
        d = k.summary_dict(); b = k.centre; h = k.parent_fundamental is not None
        want = dict(period=b.period, freq=b.freq, dm=b.dm, width=b.width, ducy=b.ducy, snr=b.snr, npeaks=len(k), rank=k.rank, hfrac_num=k.hfrac.numerator if h else 0, hfrac_denom=k.hfrac.denominator if h else 0, fundamental_rank=k.parent_fundamental.rank if h else k.rank)
        if d != want: return 'summary %r instead of %r' % (d, want)
    if cl:
        df = clusters_to_dataframe(cl)
        if len(df) != n or sorted(df['rank'].tolist()) != list(range(n)): return 'cluster table has ranks %r' % df['rank'].tolist()
        if list(df['snr']) != sorted((best(k) for k in cl), reverse=True): return 'the cluster table is not ordered by S/N'
        for _, r in df.iterrows():
            k = cl[int(r['rank'])]; d = k.summary_dict()
            if any(r[a] != d[a] for a in df.columns): return 'a row of the cluster table differs from the summary of its cluster'
    if c['build'] and out: return build(c, p, g, rg)
def build(c, p, g, rg):
    import riptide.pipeline.pipeline as M
    dms = sorted({k.centre.dm for k in p.clusters_filtered})
    p.dmiter = It({d: 'f%r' % d for d in dms}); p.candidates = []
    class WP: pass
    p.worker_pool = WP()
    base = {'f%r' % d: TimeSeries(g.normal(size=200).astype('float32'), .1, metadata={'dm': d}) for d in dms}
    p.worker_pool.loader = lambda f: base[f]
    calls = []; old = M.Candidate
    class C:
        def __init__(self, k): self.params = {'snr': k.centre.snr}; self.k = k
        @classmethod
        def from_pipeline_output(cls, ts, k, bins, subints=1): calls.append((ts, k, bins, subints)); return cls(k)
    M.Candidate = C
    try: p.build_candidates()
    finally: M.Candidate = old
    if {id(k) for _, k, _, _ in calls} != {id(k) for k in p.clusters_filtered} or len(calls) != len(p.clusters_filtered): return 'candidates are not built from each retained cluster exactly once'
    for ts, k, bins, sub in calls:
        r = p.get_search_range(k.centre.period)['candidates']
        if (bins, sub) != (r['bins'], r['subints']): return 'candidate folded with (%r, %r) instead of %r' % (bins, sub, r)
        want = base['f%r' % k.centre.dm].deredden(5.0, minpts=11).normalise()
        if ts.metadata['dm'] != k.centre.dm or not np.array_equal(ts.data, want.data): return 'candidate is not folded from the prepared series of its DM'
    s = [x.params['snr'] for x in p.candidates]
    if len(s) != len(calls) or s != sorted(s, reverse=True): return 'the candidates are not all kept, ordered by S/N'
