"""executable contract: boxcar_snr against the maximum over all phases of the normalised boxcar response"""
import numpy as np, math
import riptide
from dv.rt.ref import arr
RULE = 'random profile shapes, unsorted width lists, noise levels; windows wrapping around; invalid widths and noise levels; non-trivial when all widths are valid'

def gen(rng, tier, w, nw):
    for b in range(2, 12):
        for k in range(b):
            yield {'shape': [b], 'widths': list(range(1, b)), 'sd': 1.0, 'data': 'impulse', 'pos': k, 'seed': b}
        yield {'shape': [b], 'widths': [b], 'sd': 1.0, 'data': 'int', 'seed': 1}
        yield {'shape': [3, b], 'widths': [1, 0], 'sd': 1.0, 'data': 'int', 'seed': 1}
        yield {'shape': [3, b], 'widths': [1], 'sd': rng.choice([0.0, -1.0]), 'data': 'int', 'seed': 1}
    for b in (20000, 300000, 1200000):
        yield {'shape': [b], 'widths': [1, b // 3], 'sd': 2.0, 'data': 'impulse', 'pos': b - 2, 'seed': 1}
    while True:
        b = rng.choice([rng.randint(2, 12), rng.randint(2, 300)])
        lead = [rng.randint(1, 5) for _ in range(rng.randint(0, 3))]
        ws = [rng.randint(1, b - 1) for _ in range(rng.randint(1, 6))]
        r = rng.random()
        if r < .05: ws[rng.randrange(len(ws))] = rng.choice([0, b, b + 1])
        sd = 10 ** rng.uniform(-3, 3) if rng.random() < .95 else rng.choice([0.0, -2.0])
        yield {'shape': lead + [b], 'widths': ws, 'sd': sd, 'data': rng.choice(['int', 'gauss', 'impulse', 'uniform']), 'pos': rng.randrange(b), 'seed': rng.getrandbits(30), 'dtype': rng.choice(['float32', 'float64', 'int16'])}

def nontrivial(c): return all(0 < w < c['shape'][-1] for w in c['widths'])

def refsnr(x, widths, sd):
    """x (n, b) float64 -> (n, nw)"""
    n, b = x.shape
    C = np.concatenate([np.zeros((n, 1)), np.cumsum(np.concatenate([x, x], axis=1), axis=1)], axis=1)
    out = []
    for w in widths:
        h = math.sqrt((b - w) / (b * w)); g = h * w / (b - w)
        win = C[:, w:w + b] - C[:, :b]
        out.append((h * win.max(axis=1) - g * (C[:, b] - win.max(axis=1))) / sd)
    return np.stack(out, axis=1)

def make(c):
    if c['data'] == 'impulse':
        x = np.zeros(c['shape'], 'float32'); x[..., c['pos']] = 3; x[..., 0] -= 1
        return x
    x = arr(c['seed'], tuple(c['shape']), c['data'])
    return x.astype(c.get('dtype', 'float32')) if c['data'] == 'int' else x.astype(c['dtype'] if c.get('dtype', 'float32') != 'int16' else 'float32')

def check(c):
    x = make(c); x0 = x.copy(); b = c['shape'][-1]; W = c['widths']; sd = c['sd']
    ok = all(0 < w < b for w in W) and sd > 0
    try: y = riptide.boxcar_snr(x, W, stdnoise=sd)
    except ValueError:
        return 'boxcar_snr rejects valid widths %r for %d bins, noise %r' % (W, b, sd) if ok else None
    if not ok: return 'boxcar_snr accepts widths %r for %d bins with noise %r' % (W, b, sd)
    if not np.array_equal(x, x0): return 'boxcar_snr modifies its input'
    if list(y.shape) != c['shape'][:-1] + [len(W)]: return 'shape %r for input %r and %d widths' % (y.shape, c['shape'], len(W))
    xf = x.reshape(-1, b).astype(float)
    ref = refsnr(xf, W, sd)
    got = y.reshape(-1, len(W)).astype(float)
    scale = (np.abs(xf).sum(axis=1).max() + 1e-30) / sd
    # float32 prefix sums over up to 2b samples
    tol = 4e-7 * scale * np.array([math.sqrt((b - w) / (b * w)) * (1 + w / (b - w)) * 4 for w in W])[None, :] + 1e-5 * np.abs(ref) + 1e-9 / sd
    bad = np.argwhere(~(np.abs(got - ref) <= tol))
    if len(bad):
        i, j = bad[0]
        return 'S/N at width %d of profile %d (%d bins) is %r instead of %r' % (W[j], i, b, got[i, j], ref[i, j])
