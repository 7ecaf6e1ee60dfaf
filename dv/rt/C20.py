RULE = 'random series, period/bin ranges, options; reference: explicit dereddening, normalisation, width sequence, capped period_max and a direct call of the native periodogram'
import numpy as np, copy
from riptide import TimeSeries, ffa_search
from riptide.ffautils import generate_width_trials
import riptide.libcpp as libcpp

def gen(rng, tier, w, nw):
    # the width sequence alone is cheap: systematic part first
    if w == 0:
        for bins in list(range(1, 41)) + [100, 240, 255, 1000]:
            yield {'k': 'w', 'bins': bins, 'd': None, 'ws': None}
        for bins in (2, 5, 10, 33, 240):
            for d in (0.001, 0.1, 0.2, 0.5, 0.99):
                for ws in (1.01, 1.2, 1.5, 1.9, 2.0, 2.5, 3.0, 7.3): yield {'k': 'w', 'bins': bins, 'd': d, 'ws': ws}
    while True:
        if rng.random() < 0.5:
            yield {'k': 'w', 'bins': rng.randint(1, 2000), 'd': rng.choice([rng.random(), 0.2, rng.randint(1, 20) / 20]), 'ws': rng.choice([1 + 3 * rng.random(), 1.5, 2.0, 1 + rng.random() / 50])}
            continue
        n = rng.randint(60, 700); dt = rng.choice([1.0, 0.25, 0.01 * rng.random() + 1e-3])
        bmin = rng.randint(2, 12); bmax = bmin + rng.randint(1, 5)
        pmin = dt * bmin * rng.uniform(1.0, 1.6)
        yield {'k': 's', 'n': n, 'dt': dt, 'seed': rng.randint(0, 10**6), 'bmin': bmin, 'bmax': bmax, 'pmin': pmin, 'pmax': pmin * rng.choice([1.5, 3.0, 10.0, 1000.0]),
               'fpmin': rng.choice([None, 1, 2, 3, 8, 20]), 'ducy': rng.choice([None, 0.1, 0.5, 0.9]), 'wtsp': rng.choice([None, 1.2, 2.0, 3.0]),
               'deredden': rng.choice([None, True, False]), 'rw': dt * rng.choice([21, 31, 15.3, 45]), 'mp': rng.choice([5, 9, 11]), 'an': rng.choice([None, True, False])}
def nontrivial(c): return c['k'] == 's' or c['bins'] > 5
def widths(bins, d, ws):
    out = [1]; m = int(max(1, d * bins))
    while True:
        w = max(out[-1] + 1, int(ws * out[-1]))
        if w > m: return out
        out.append(w)
def check(c):
    if c['k'] == 'w':
        kw = {k: v for k, v in (('ducy_max', c['d']), ('wtsp', c['ws'])) if v is not None}
        got = generate_width_trials(c['bins'], **kw)
        want = widths(c['bins'], 0.2 if c['d'] is None else c['d'], 1.5 if c['ws'] is None else c['ws'])
        if list(got) != want: return 'width trials %s instead of %s' % (list(got)[:20], want[:20])
        if not np.issubdtype(np.asarray(got).dtype, np.integer): return 'width trials are not integers'
        return
    rs = np.random.RandomState(c['seed'])
    x = (rs.normal(size=c['n']) + np.cumsum(rs.normal(size=c['n'])) * 0.2 + 3).astype('float32')
    ts = TimeSeries(x.copy(), c['dt'], metadata={'dm': 12.5, 'source_name': 'x', 'extra': [1, 2]})
    before = (ts.data.copy(), ts.tsamp, dict(ts.metadata))
    kw = {'period_min': c['pmin'], 'period_max': c['pmax'], 'bins_min': c['bmin'], 'bins_max': c['bmax'], 'rmed_width': c['rw'], 'rmed_minpts': c['mp']}
    for k, a in (('fpmin', 'fpmin'), ('ducy_max', 'ducy'), ('wtsp', 'wtsp'), ('deredden', 'deredden'), ('already_normalised', 'an')):
        if c[a] is not None: kw[k] = c[a]
    ref = ts
    if c['deredden'] is not False: ref = ref.deredden(c['rw'], minpts=c['mp'])
    if not c['an']: ref = ref.normalise()
    w = widths(c['bmin'], c['ducy'] or 0.2, c['wtsp'] or 1.5)
    pmax = min(c['pmax'], c['n'] * c['dt'] / (8 if c['fpmin'] is None else c['fpmin']))
    try: want = libcpp.periodogram(ref.data, ref.tsamp, np.asarray(w), c['pmin'], pmax, c['bmin'], c['bmax'])
    except Exception as e: want = e
    try: r = ffa_search(ts, **kw)
    except Exception as e: r = e
    if not (np.array_equal(ts.data, before[0]) and ts.tsamp == before[1] and dict(ts.metadata) == before[2]): return 'the given time series is modified'
    if isinstance(want, Exception) or isinstance(r, Exception):
        return None if type(want) is type(r) else 'search: %r, reference: %r' % (r, want)
    s, pg = r
    if not np.array_equal(s.data, ref.data) or s.tsamp != ref.tsamp: return 'the returned series is not the dereddened and normalised one'
    if list(pg.widths) != w: return 'periodogram widths %s instead of %s' % (list(pg.widths), w)
    for a, b, nm in zip((pg.periods, pg.foldbins, pg.snrs), want, ('periods', 'foldbins', 'snrs')):
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=nm == 'snrs'): return 'periodogram %s differ from a direct search of the prepared series' % nm
    if dict(pg.metadata) != dict(ref.metadata): return 'periodogram metadata differ from those of the series'
    if len(pg.periods) and pg.periods.max() > c['n'] * c['dt'] / (8 if c['fpmin'] is None else c['fpmin']) * (1 + 1e-9): return 'longest trial period exceeds the data length over fpmin'
