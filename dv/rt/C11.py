"""executable contract: peak detection"""
import numpy as np, math
from riptide import find_peaks
from riptide.periodogram import Periodogram
from riptide.metadata import Metadata
RULE = 'random periodograms (uniform and irregular trial grids, 1..4 widths, noise with trends, tied S/N, adjacent strong trials, trials at the thresholds) with and without enough segments for a fit; non-trivial: at least one significant trial'
def gen(rng, tier, w, nw):
    while True:
        yield {'n': rng.choice([2, 3, rng.randint(4, 40), rng.randint(40, 1500)]), 'nw': rng.randint(1, 4), 'seed': rng.getrandbits(30), 'T': rng.choice([50.0, 300.0, 2000.0]), 'opt': rng.random() < .7, 'tie': rng.random() < .3, 'dm': rng.choice([None, 0.0, 12.5]), 'irr': rng.random() < .4, 'quiet': rng.random() < .15}
def nontrivial(c): return c['n'] > 3 and not c['quiet']
def check(c):
    g = np.random.RandomState(c['seed'] & 0x7fffffff); n, T = c['n'], c['T']
    df = g.choice([.02, .1, .3, 1.0]) / T
    d = np.full(n, df) if not c['irr'] else df * g.choice([.05, .3, 1., 3.], size=n)
    f = 1.0 + np.cumsum(d); P = 1.0 / f[::-1]
    w = np.sort(g.choice(np.arange(1, 30), size=c['nw'], replace=False)); B = g.randint(30, 60, size=n)
    S = g.normal(size=(n, c['nw'])) * g.uniform(.5, 1.5) + np.linspace(0, g.uniform(-2, 2), n)[:, None]
    if not c['quiet']:
        for _ in range(g.randint(1, 8)):
            i = g.randint(n); k = g.randint(c['nw']); h = g.randint(1, 5)
            S[i:i + h, k] += g.uniform(5, 40)
    if c['tie']: S = np.round(S * 2) / 2
    S = S.astype('float32')
    p = Periodogram(w, P, B.astype('uint32'), S, metadata=Metadata({'dm': c['dm'], 'tobs': T}))
    v = {'smin': 6.0, 'segwidth': 5.0, 'nstd': 6.0, 'minseg': 10, 'polydeg': 2, 'clrad': .1}
    kw = {}
    if c['opt']:
        deg = int(g.randint(0, 3))
        kw = {'smin': float(g.choice([2.0, 4.0, 6.0, 6.5])), 'segwidth': float(g.choice([.5, 2., 5., 20.])), 'nstd': float(g.choice([1., 3., 6.])), 'minseg': int(g.randint(deg + 2, 12)), 'polydeg': deg, 'clrad': float(g.choice([.05, .1, .5, 2.]))}
        for k in list(kw):
            if g.rand() < .25 and k not in ('minseg', 'polydeg'): del kw[k]
    v.update(kw)
    fr = 1.0 / P
    m = math.ceil(abs(fr[-1] - fr[0]) / (v['segwidth'] / T))
    if not 1 <= m <= n or abs(abs(fr[-1] - fr[0]) / (v['segwidth'] / T) - round(abs(fr[-1] - fr[0]) / (v['segwidth'] / T))) < 1e-9: return None
    S0, P0 = S.copy(), P.copy()
    peaks, pol = find_peaks(p, **kw)
    if not (np.array_equal(S, S0) and np.array_equal(P, P0)): return 'the periodogram is modified'
    if sorted(pol) != list(range(c['nw'])): return 'thresholds are reported for widths %r' % sorted(pol)
    q = n // m; snr = [x.snr for x in peaks]
    if snr != sorted(snr, reverse=True): return 'peaks are not in decreasing order of S/N'
    total = 0
    for iw in range(c['nw']):
        s = S[:, iw].astype(float); mine = [x for x in peaks if x.iw == iw]
        if m >= v['minseg']:
            fs = fr[:m * q].reshape(m, q); ss = s[:m * q].reshape(m, q)
            tc = np.array([np.median(r) + v['nstd'] * (np.percentile(r, 75) - np.percentile(r, 25)) / 1.349 for r in ss]); fc = np.array([np.median(r) for r in fs])
            thr = np.poly1d(np.polyfit(np.log(fc), tc, v['polydeg']))(np.log(fr))
        else: thr = np.full(n, v['smin'])
        rep = np.poly1d(pol[iw])(np.log(fr))
        tol = 1e-5 * (1 + abs(thr).max())
        if abs(rep - thr).max() > tol: return 'reported threshold of width index %d differs by %g from the fit' % (iw, abs(rep - thr).max())
        if m >= v['minseg'] and (abs(s - thr) < tol).any(): continue
        sig = np.where((s > thr) & (s > v['smin']))[0]
        fsel = fr[sig]; o = np.argsort(fsel, kind='stable'); r = v['clrad'] / T; gap = np.diff(fsel[o])
        if (abs(gap - r) < 1e-9 * max(r, 1e-9) + 1e-13).any(): continue
        gr = np.split(sig[o], np.where(gap > r)[0] + 1) if len(sig) else []
        if len(mine) != len(gr): return 'width index %d: %d peaks for %d groups of significant trials' % (iw, len(mine), len(gr))
        for k in gr:
            hit = [x for x in mine if x.ip in set(k.tolist())]
            if len(hit) != 1: return 'width index %d: a group of significant trials has %d peaks' % (iw, len(hit))
            if s[hit[0].ip] != s[k].max(): return 'width index %d: the peak is not at the highest S/N of its group' % iw
        for x in mine:
            i = x.ip
            want = dict(width=int(w[iw]), freq=fr[i], period=1.0 / fr[i], ducy=w[iw] / B[i], iw=iw, snr=s[i], dm=c['dm'])
            for k, y in want.items():
                z = getattr(x, k)
                if (z is None) != (y is None) or (y is not None and abs(z - y) > 1e-12 * abs(y)): return 'peak %r: %s is %r instead of %r' % (x, k, z, y)
    return None
