"""executable contract: validation of search ranges and of the pipeline configuration"""
import copy
import numpy as np
from riptide.pipeline.config_validation import validate_range, validate_ranges, validate_ranges_contiguity, validate_pipeline_config, InvalidSearchRange, InvalidPipelineConfig
from riptide.pipeline.pipeline import Pipeline
RULE = 'lists of 0..6 ranges with resolution at, just below and just above the limit and bounds equal or off by one ulp; configurations with every field set to valid values, invalid values, removed, or accompanied by an unknown key; non-trivial: at least two ranges'
POSF, POSI, NUM, BOOL = 'positive number', 'positive int', 'number', 'bool'
# (path, kind, may be null, optional)
FIELDS = [(('processes',), POSI, False, False), (('data', 'format'), 'format', False, False), (('data', 'fmin'), POSF, True, False), (('data', 'fmax'), POSF, True, False), (('data', 'nchans'), POSI, True, False),
          (('dmselect', 'min'), NUM, True, False), (('dmselect', 'max'), NUM, True, False), (('dmselect', 'dmsinb_max'), POSF, True, False),
          (('dereddening', 'rmed_width'), POSF, False, False), (('dereddening', 'rmed_minpts'), POSI, False, False), (('clustering', 'radius'), POSF, False, False),
          (('harmonic_flagging', 'denom_max'), POSI, False, False), (('harmonic_flagging', 'phase_distance_max'), POSF, False, False), (('harmonic_flagging', 'dm_distance_max'), POSF, False, False), (('harmonic_flagging', 'snr_distance_max'), POSF, False, False),
          (('candidate_filters', 'dm_min'), NUM, True, False), (('candidate_filters', 'snr_min'), NUM, True, False), (('candidate_filters', 'remove_harmonics'), BOOL, True, False), (('candidate_filters', 'max_number'), POSI, True, False), (('plot_candidates',), BOOL, False, False)]
RANGE = [(('name',), 'str', False, False), (('ffa_search', 'period_min'), POSF, False, False), (('ffa_search', 'period_max'), POSF, False, False), (('ffa_search', 'bins_min'), POSI, False, False), (('ffa_search', 'bins_max'), POSI, False, False),
         (('ffa_search', 'fpmin'), POSI, False, True), (('ffa_search', 'wtsp'), 'number > 1', False, True), (('ffa_search', 'ducy_max'), 'fraction', False, True),
         (('find_peaks', 'smin'), POSF, False, True), (('find_peaks', 'segwidth'), POSF, False, True), (('find_peaks', 'nstd'), POSF, False, True), (('find_peaks', 'minseg'), POSI, False, True), (('find_peaks', 'clrad'), POSF, True, True),
         (('candidates', 'bins'), POSI, False, False), (('candidates', 'subints'), POSI, True, False)]
def good(kind, g):
    if kind == POSF: return g.choice([0.5, 1, 3, 1e-3, 100.0, 7])
    if kind == POSI: return g.choice([1, 2, 16, 1024])
    if kind == NUM: return g.choice([0, 0.0, -3.5, 10, 1e3])
    if kind == BOOL: return g.choice([True, False])
    if kind == 'format': return g.choice(['presto', 'sigproc'])
    if kind == 'str': return g.choice(['short', 'r', ''])
    if kind == 'number > 1': return g.choice([1.5, 2, 1.0001])
    return g.choice([0.2, 0.5, 0.999, 1e-3])
def wrong(kind, g):
    if kind == POSF: return g.choice([0, 0.0, -1, -0.5, 'abc', [1.0], {}])
    if kind == POSI: return g.choice([0, -1, 'abc', [1], {}])
    if kind == NUM: return g.choice(['abc', [1.0], {}])
    if kind == BOOL: return g.choice([0, 1, 2, 'yes', 1.0])
    if kind == 'format': return g.choice(['fits', '', 3, 'PRESTO'])
    if kind == 'str': return g.choice([3, None, 1.5])
    if kind == 'number > 1': return g.choice([1, 1.0, 0.5, -2, 'abc'])
    return g.choice([0.0, 1.0, 1.5, -0.2, 1, 'abc'])
def put(d, path, v):
    for k in path[:-1]: d = d.setdefault(k, {})
    d[path[-1]] = v
def drop(d, path):
    for k in path[:-1]: d = d[k]
    d.pop(path[-1], None)
def get(d, path):
    for k in path: d = d[k]
    return d
def mkrange(g, full):
    r = {'ffa_search': {}, 'find_peaks': {}, 'candidates': {}}
    for p, k, nul, opt in RANGE:
        if opt and not full and g.random() < .5: continue
        put(r, p, None if nul and g.random() < .3 else good(k, g))
    return r
def mkconf(g):
    c = {}
    for p, k, nul, opt in FIELDS: put(c, p, None if nul and g.random() < .3 else good(k, g))
    c['ranges'] = [mkrange(g, g.random() < .5) for _ in range(g.randint(1, 3))]
    return c
def gen(rng, tier, w, nw):
    while True:
        yield {'n': rng.choice([0, 1, 2, 3, rng.randint(2, 6)]), 'seed': rng.getrandbits(30), 'ts': rng.choice([1e-3, 64e-6, 0.25, 1.0, rng.random()]), 'nbad': rng.choice([0, 0, 1, 1, 2]), 'mut': rng.choice(['ok', 'wrong', 'null', 'missing', 'unknown', 'section'])}
def nontrivial(c): return c['n'] >= 2
def raised(f, *a):
    try: f(*a)
    except InvalidSearchRange: return True
    return False
def check(c):
    import random
    g = random.Random(c['seed']); ts = c['ts']; n = c['n']
    rg = []; edge = None
    for i in range(n):
        b, cb = g.choice([1, 3, 10, 240]), g.choice([1, 3, 10, 256])
        lim = max(b * ts, cb * ts)
        lo = edge if edge is not None and edge >= lim else lim * g.choice([1.0, 1.0, 1.5, 3.0])
        hi = lo * g.choice([1.1, 2.0, 5.0])
        rg.append({'ffa_search': {'period_min': lo, 'period_max': hi, 'bins_min': b, 'bins_max': b + 5}, 'candidates': {'bins': cb, 'subints': 4}})
        edge = hi
        if i and rg[-2]['ffa_search']['period_max'] != lo: rg[-2]['ffa_search']['period_max'] = lo
    for _ in range(c['nbad'] if n else 0):
        r = g.choice(rg); k = g.choice(['lo', 'hi', 'b', 'cb', 'swap'])
        if k == 'lo': r['ffa_search']['period_min'] = float(np.nextafter(r['ffa_search']['period_min'], g.choice([0, 1e9])))
        elif k == 'hi': r['ffa_search']['period_max'] = float(np.nextafter(r['ffa_search']['period_max'], g.choice([0, 1e9])))
        elif k == 'b': r['ffa_search']['bins_min'] += g.choice([1, 10000])
        elif k == 'cb': r['candidates']['bins'] += g.choice([1, 10000])
        else: rg.reverse()
    fine = [max(r['ffa_search']['bins_min'] * ts, r['candidates']['bins'] * ts) > r['ffa_search']['period_min'] for r in rg]
    gaps = [a['ffa_search']['period_max'] != b['ffa_search']['period_min'] for a, b in zip(rg, rg[1:])]
    rg0 = copy.deepcopy(rg)
    for i, r in enumerate(rg):
        if raised(validate_range, r, ts) != fine[i]: return 'range %d is %s: %r, sampling time %r' % (i, 'accepted' if fine[i] else 'rejected', r, ts)
    if raised(validate_ranges_contiguity, rg) != any(gaps): return 'ranges %r are %s as contiguous' % ([(r['ffa_search']['period_min'], r['ffa_search']['period_max']) for r in rg], 'accepted' if any(gaps) else 'rejected')
    if raised(validate_ranges, rg, ts) != (any(gaps) or any(fine)): return 'ranges %r, sampling time %r: %s' % (rg, ts, 'accepted' if any(gaps) or any(fine) else 'rejected')
    if rg != rg0: return 'the ranges are modified'
    # configuration
    conf = mkconf(g); mut = c['mut']; what = None; ok = True
    if mut != 'ok':
        inr = g.random() < .5
        d = conf['ranges'][g.randrange(len(conf['ranges']))] if inr else conf
        p, k, nul, opt = g.choice(RANGE if inr else FIELDS)
        if mut == 'wrong': v = wrong(k, g); put(d, p, v); ok = False; what = '%s = %r' % ('.'.join(p), v)
        elif mut == 'null': put(d, p, None); ok = nul; what = '%s = None' % '.'.join(p)
        elif mut == 'missing': drop(d, p); ok = opt; what = 'no %s' % '.'.join(p)
        elif mut == 'unknown': put(d, p[:-1] + ('bogus',), 1); ok = False; what = 'an unknown key beside %s' % '.'.join(p)
        else:
            s = g.choice(['data', 'dmselect', 'dereddening', 'ranges', 'clustering', 'harmonic_flagging', 'candidate_filters'])
            del conf[s]; ok = False; what = 'no section %s' % s
    keep = copy.deepcopy(conf)
    for f in ('validate', 'pipeline'):
        try: out = validate_pipeline_config(conf) if f == 'validate' else Pipeline(conf).config
        except InvalidPipelineConfig as e:
            if ok: return 'a valid configuration (%s) is rejected: %s' % (what, str(e)[:200])
            continue
        if not ok: return 'a configuration with %s is accepted' % what
        if conf != keep: return 'the configuration is modified'
        if out != keep: return 'the validated configuration differs: %r instead of %r' % (out, keep)
