"""executable contract: harmonic test and harmonic flagging"""
import numpy as np, math
from fractions import Fraction
from riptide.peak_detection import Peak
from riptide.pipeline.harmonic_testing import htest
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.pipeline.pipeline import Pipeline
RULE = 'random candidate pairs near and far from harmonic relations (either order, equal frequencies), limits around the distances; sets of clusters with chains of harmonics of harmonics and tied S/N; non-trivial when a relation exists'
def gen(rng, tier, w, nw):
    while True:
        yield {'k': rng.choice(['pair', 'pair', 'set']), 'seed': rng.getrandbits(30), 'dmax': rng.choice([1, 2, 3, 8, 16, 100]), 'n': rng.choice([0, 1, 2, 3, rng.randint(3, 9), rng.randint(3, 30)])}
def nontrivial(c): return c['k'] == 'pair' or c['n'] >= 3
def closest(x, dmax):
    """fraction with denominator <= dmax closest to x"""
    best = None
    for q in range(1, dmax + 1):
        p = math.floor(x * q)
        for a in (p, p + 1):
            d = abs(Fraction(a, q) - Fraction(x))
            if best is None or d < best[0]: best = (d, Fraction(a, q))
    return best[1]
def dist(F, H, t, lo, hi, dmax):
    slow, fast = (F, H) if F.freq <= H.freq else (H, F)
    fr = closest(fast.freq / slow.freq, dmax)
    pd = abs(float(fr) * slow.freq - fast.freq) * t / fast.ducy
    dd = abs(F.dm - H.dm) * 4150. * abs(lo ** -2 - hi ** -2) / min(F.ducy / F.freq, H.ducy / H.freq)
    sd = abs(H.snr - F.snr / math.sqrt(fr.numerator * fr.denominator))
    return pd, dd, sd, (fr if slow is F else 1 / fr)
def related(d, lim):
    """True, False, or None if not decidable to rounding"""
    r = [True if x <= l * (1 - 1e-9) - 1e-12 else False if x > l * (1 + 1e-9) + 1e-12 else None for x, l in zip(d[:3], lim)]
    return False if False in r else None if None in r else True
def mkpeak(g, base=None):
    if base is None: f, snr, dm = float(g.uniform(.1, 5)), float(g.uniform(7, 60)), float(g.uniform(0, 50))
    else:
        a, b = int(g.randint(1, 6)), int(g.randint(1, 4))
        f = base.freq * a / b * (1 + float(g.choice([0, 0, 1e-7, -1e-6, 1e-5, 1e-4]))); snr = base.snr / math.sqrt(a * b) + float(g.choice([0, .5, -1, 2.9, 4])); dm = base.dm + float(g.choice([0, 0, .1, 1., 5.]))
    d = float(g.choice([.01, .05, .1]))
    return Peak(period=1 / f, freq=f, width=1, ducy=d, iw=0, ip=0, snr=max(5., snr), dm=dm)
class It:
    def __init__(self, t, lo, hi): self.t, self.fmin, self.fmax = t, lo, hi
    def tobs_median(self): return self.t
def check(c):
    g = np.random.RandomState(c['seed'] & 0x7fffffff)
    t = float(g.choice([100., 1000., 7200.])); lo = float(g.choice([400., 1200.])); hi = lo + float(g.choice([50., 300.]))
    lim = (float(g.choice([.5, 1., 10.])), float(g.choice([1., 3., 50.])), float(g.choice([1., 3., 10.])))
    kw = dict(denom_max=c['dmax'], phase_distance_max=lim[0], dm_distance_max=lim[1], snr_distance_max=lim[2])
    if c['k'] == 'pair':
        F = mkpeak(g); H = mkpeak(g, F if g.rand() < .85 else None)
        if g.rand() < .5: F, H = H, F
        for a, b in ((F, H), (H, F), (F, F)):
            d = dist(a, b, t, lo, hi, c['dmax'])
            r, fr = htest(a, b, t, lo, hi, **kw)
            if fr != d[3]: return 'fraction %s instead of %s for frequencies %r and %r' % (fr, d[3], a.freq, b.freq)
            w = related(d, lim)
            if w is not None and bool(r) != w: return 'related is %r but the distances are %r with limits %r' % (r, d[:3], lim)
            if c['dmax'] == 100:
                w = related(d, (1., 3., 3.))
                if w is not None and bool(htest(a, b, t, lo, hi)[0]) != w: return 'the default limits are not those documented'
        for bad in ((t, hi, lo), (t, lo, lo), (0.0, lo, hi), (-1.0, lo, hi)):
            try: htest(F, H, *bad); return 'htest accepts tobs, fmin, fmax = %r' % (bad,)
            except ValueError: pass
        return
    ps = []
    for i in range(c['n']): ps.append(mkpeak(g, ps[g.randint(len(ps))] if ps and g.rand() < .8 else None))
    if ps and g.rand() < .3: ps = [p._replace(snr=float(round(p.snr / 5) * 5)) for p in ps]
    cl = []
    for p in ps:
        q = [p] + [p._replace(snr=p.snr - float(x), freq=p.freq * 1.0000001) for x in g.uniform(0, 3, size=g.randint(0, 3))]
        g.shuffle(q := [Peak(*x) for x in q]); cl.append(PeakCluster([Peak(*x) for x in q]))
    pl = Pipeline.__new__(Pipeline); pl.config = {'harmonic_flagging': kw}; pl.dmiter = It(t, lo, hi); pl.clusters = list(cl)
    pl.flag_harmonics()
    if len(pl.clusters) != len(cl) or any(a is not b for a, b in zip(pl.clusters, cl)): return 'the clusters are altered'
    if sorted(k.rank for k in cl if k.rank is not None) != list(range(len(cl))): return 'ranks %r' % [k.rank for k in cl]
    o = sorted(cl, key=lambda k: k.rank); snr = lambda k: max(p.snr for p in k)
    if any(snr(a) < snr(b) for a, b in zip(o, o[1:])): return 'ranks do not follow decreasing S/N'
    T = lambda a, b: htest(a.centre, b.centre, t, lo, hi, **kw)
    ids = {id(k) for k in cl}
    for k in cl:
        p = k.parent_fundamental
        if p is None:
            if k.is_harmonic: return 'a cluster without a fundamental is flagged'
            continue
        if not k.is_harmonic: return 'a cluster with a fundamental is not flagged'
        if id(p) not in ids: return 'a fundamental is not one of the clusters'
        if p.parent_fundamental is not None: return 'the fundamental of a harmonic is flagged itself'
        if p.rank >= k.rank or snr(p) < snr(k): return 'the fundamental is not brighter than its harmonic'
        r, fr = T(p, k)
        if not r: return 'a flagged cluster does not pass the test with its fundamental'
        if k.hfrac != fr: return 'fraction %s instead of %s' % (k.hfrac, fr)
    un = [k for k in o if k.parent_fundamental is None]
    for i, a in enumerate(un):
        for b in un[i + 1:]:
            if T(a, b)[0]: return 'unflagged clusters of rank %d and %d are related' % (a.rank, b.rank)
