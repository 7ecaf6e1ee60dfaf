"""executable contract: PRESTO files"""
import os, math, tempfile, warnings
import numpy as np
from riptide import TimeSeries
from riptide.reading import PrestoInf
RULE = 'random .inf texts: radio, X-ray and gamma observations, with and without breaks, 0 to 12 on/off pairs, random field values (some containing "=" or commas), notes at the end, with a random .dat file, names with dots; malformed lines, artificial data and unsupported bands; non-trivial: at least one sample'
LAB = [' Data file name without suffix', ' Telescope used', ' Instrument used', ' Object being observed', ' J2000 Right Ascension (hh:mm:ss.ssss)', ' J2000 Declination     (dd:mm:ss.ssss)', ' Data observed by', ' Epoch of observation (MJD)', ' Barycentered?           (1 yes, 0 no)', ' Number of bins in the time series', ' Width of each time series bin (sec)', ' Any breaks in the data? (1 yes, 0 no)']
RAD = [('fov_arcsec', ' Beam diameter (arcsec)', 'f'), ('dm', ' Dispersion measure (cm-3 pc)', 'f'), ('fbot', ' Central freq of low channel (Mhz)', 'f'), ('bandwidth', ' Total bandwidth (Mhz)', 'f'), ('nchan', ' Number of channels', 'i'), ('cbw', ' Channel bandwidth (Mhz)', 'f'), ('analyst', ' Data analyzed by', 's')]
HI = [('fov_arcsec', ' Field-of-view diameter (arcsec)', 'f'), ('central_energy_kev', ' Central energy (kev)', 'f'), ('energy_bandpass_kev', ' Energy bandpass (kev)', 'f'), ('analyst', ' Data analyzed by', 's')]
def gen(rng, tier, w, nw):
    k = 0
    while True:
        k += 1
        c = {'seed': rng.getrandbits(30), 'n': rng.choice([1, 2, rng.randint(1, 300)]), 'band': rng.choice(['Radio', 'Radio', 'X-ray', 'Gamma']), 'breaks': rng.random() < .6, 'bad': None}
        if k % 4 == 0: c['bad'] = rng.choice(['sep', 'band', 'fake', 'number', 'sep'])
        yield c
def nontrivial(c): return c['n'] >= 1
def line(lab, v): return '%-40s=  %s' % (lab, v)
def check(c):
    r = np.random.default_rng(c['seed']); tmp = os.path.realpath(tempfile.mkdtemp(prefix='dvC18'))
    try:
        with warnings.catch_warnings(): warnings.simplefilter('ignore'); return run(c, r, tmp)
    finally:
        for n in os.listdir(tmp): os.remove(os.path.join(tmp, n))
        os.rmdir(tmp)
def word(r): return ''.join(r.choice(list('abcXYZ019_-+./'), int(r.integers(1, 12)))) + str(r.choice(['', '', ' x', '=1', ', y', ' = 2']))
def num(r): return float(r.choice([0.0, 0.5, 1e-9, 12345.678, float(np.round(abs(r.normal()) * 10 ** int(r.integers(-3, 5)), 9))]))
def run(c, r, tmp):
    base = str(r.choice(['x', 'a.b_DM1.25', 'long.name.with.dots', 'a.inf.b'])); f = os.path.join(tmp, base + '.inf')
    ra = (int(r.integers(24)), int(r.integers(60)), float(np.round(r.uniform(0, 59.9), 4))); neg = bool(r.integers(2)); de = (int(r.integers(90)), int(r.integers(60)), float(np.round(r.uniform(0, 59.9), 4)))
    ts = float(r.choice([64e-6, 0.001, 1.0])); w = {}
    w['basename'] = word(r); w['telescope'] = word(r); w['instrument'] = word(r); w['source_name'] = word(r)
    w['raj'] = '%02d:%02d:%07.4f' % ra; w['decj'] = '%s%02d:%02d:%07.4f' % ('-' if neg else '', *de); w['observer'] = word(r)
    w['mjd'] = num(r); w['barycentered'] = bool(r.integers(2)); w['nsamp'] = c['n']; w['tsamp'] = ts; w['breaks'] = c['breaks']
    lines = [line(l, int(v) if isinstance(v, bool) else repr(v) if isinstance(v, float) else v) for l, v in zip(LAB, w.values())]
    pairs = [(int(a), int(b)) for a, b in r.integers(0, 10**6, (int(r.choice([0, 1, 2, int(r.integers(0, 13))])), 2))] if c['breaks'] else []
    for j, (a, b) in enumerate(pairs): lines.append(line(' On/Off bin pair #%3d' % (j + 1), '%d, %d' % (a, b)))
    w['onoff_pairs'] = pairs; nb = len(lines)
    w['em_band'] = c['band']; lines.append(line(' Type of observation (EM band)', c['band']))
    for k, l, t in (RAD if c['band'] == 'Radio' else HI):
        w[k] = num(r) if t == 'f' else int(r.integers(1, 5000)) if t == 'i' else word(r)
        lines.append(line(l, repr(w[k]) if t == 'f' else w[k]))
    last = len(lines)
    lines += [' Any additional notes:'] + ['    ' + word(r) for _ in range(int(r.integers(0, 3)))]
    bad = c['bad']
    if bad == 'sep':
        j = int(r.choice([i for i in range(last) if not 12 <= i < nb])); l = lines[j]
        lines[j] = str(r.choice([l[:40] + ':' + l[41:], l[:39] + l[40:], l[:40], '']))
        if j == 0 and not lines[j]: lines[j] = 'x'
    elif bad == 'band': lines[nb] = line(' Type of observation (EM band)', str(r.choice(['Optical', 'radio', 'Xray', 'Infrared'])))
    elif bad == 'fake': lines[1] = line(LAB[1], 'None (Artificial Data Set)')
    elif bad == 'number':
        j = int(r.choice([7, 8, 9, 10, 11, nb + 1, nb + 2, nb + 3])); lines[j] = lines[j][:41] + '  abc'
    open(f, 'w').write('\n'.join(lines) + '\n')
    x = np.float32(r.choice([1, 1e-30, 1e30]) * r.normal(size=c['n'])); x.tofile(os.path.join(tmp, base + '.dat'))
    try: inf = PrestoInf(f)
    except ValueError as e: return None if bad else 'valid file refused: %r' % e
    except Exception as e: return 'exception %r' % e
    if bad: return 'accepted a file that must be refused (%s)' % bad
    if set(inf) != set(w): return 'fields %r instead of %r' % (sorted(set(inf) ^ set(w)), sorted(w))
    for k in w:
        if inf[k] != w[k] or (k != 'onoff_pairs' and type(inf[k]) is not type(w[k])): return 'field %s is %r, the file says %r' % (k, inf[k], w[k])
    if inf.fname != f or inf.data_fname != os.path.join(tmp, base + '.dat'): return 'file names %r %r' % (inf.fname, inf.data_fname)
    t = TimeSeries.from_presto_inf(f); m = t.metadata
    if t.data.dtype != np.float32 or not np.array_equal(t.data, x): return 'samples %r, wrote %r' % (t.data[:5], x[:5])
    if t.tsamp != ts or not math.isclose(m['tobs'], c['n'] * ts, rel_tol=1e-12): return 'tsamp %r tobs %r' % (t.tsamp, m['tobs'])
    for k in w:
        if m.get(k) != w[k]: return 'metadata %s is %r instead of %r' % (k, m.get(k), w[k])
    if m['dm'] != w.get('dm') or m['fname'] != f: return 'metadata dm %r fname %r' % (m['dm'], m['fname'])
    wr, wd = ra[0] + ra[1] / 60. + ra[2] / 3600., (-1 if neg else 1) * (de[0] + de[1] / 60. + de[2] / 3600.)
    if abs(m['skycoord'].ra.hour - wr) > 1e-6 or abs(m['skycoord'].dec.deg - wd) > 1e-6: return 'coordinates %r, wrote %r %r' % (m['skycoord'], wr, wd)
