"""specification of the periodogram trial grid (C05, C06), with tolerance for floating-point rounding of comparisons"""
import math
EPS = 1e-9
def cycles(N, tsamp, pmin, pmax, bmin, bmax):
    """yields (k, f, tau, n) or None in place of n if the number of samples is not decidable to rounding"""
    f0 = pmin / (tsamp * bmin); geo = (bmax + 1.0) / bmin; k = 0
    while True:
        f = f0 * geo ** k; tau = tsamp * f
        if tau * bmin >= pmax * (1 + EPS): return
        q = N / f
        a, b = math.floor(q * (1 - 1e-12)), math.floor(q * (1 + 1e-12))
        if f == 1: a = b = N
        yield k, f, tau, (a if a == b else None)
        if b < bmin: return
        k += 1
def trial(tau, b, s, r): return tau * b * b / (b - s / (r - 1.0))
def count(tau, b, r, pmax):
    """(least, most) number of trials with b bins"""
    if r < 2: return 0, 0
    lim = min((b + 1) * tau, pmax)
    # period(s) < lim  <=>  s < (r-1)*(b - b*b*tau/lim)
    c = (r - 1) * (b - b * b * tau / lim)
    tol = EPS * (1 + b * (r - 1))
    return max(0, min(r, math.ceil(c - tol))), max(0, min(r, math.ceil(c + tol)))
def match(P, B, N, tsamp, pmin, pmax, bmin, bmax):
    """returns (error or None, [(k, f, tau, n, b, r, s)] per trial or None if undecidable)"""
    blocks = []
    for k, f, tau, n in cycles(N, tsamp, pmin, pmax, bmin, bmax):
        if n is None: return None, None
        for b in range(bmin, bmax + 1):
            if b > n or b * tau >= pmax * (1 + EPS): break
            r = n // b
            lo, hi = count(tau, b, r, pmax)
            if hi: blocks.append((k, f, tau, n, b, r, lo, hi))
    rows = []; choice = []; j = 0; err = None      # choice: (block, position, fewest trials still to try)
    while True:
        ok = True
        while j < len(blocks):
            k, f, tau, n, b, r, lo, hi = blocks[j]; i0 = len(rows); s = 0
            lim = hi if not (choice and choice[-1][0] == j and choice[-1][1] == i0) else choice[-1][2]
            while i0 + s < len(P) and s < lim and B[i0 + s] == b and abs(P[i0 + s] - trial(tau, b, s, r)) <= 1e-9 * P[i0 + s]: s += 1
            if s < lo:
                i = i0 + s
                err = err or 'trial %d should be cycle %d, %d bins, shift %d, period %r, but it is %s' % (i, k, b, s, trial(tau, b, s, r), '%r with %d bins' % (float(P[i]), int(B[i])) if i < len(P) else 'missing')
                ok = False; break
            if s > lo and not (choice and choice[-1][0] == j and choice[-1][1] == i0): choice.append([j, i0, s])
            for q in range(s): rows.append((k, f, tau, n, b, r, q))
            j += 1
        if ok and len(rows) == len(P): return None, rows
        err = err or 'trial %d (period %r, %d bins) is not a trial of the grid, which has %d' % (len(rows), float(P[len(rows)]), int(B[len(rows)]), len(rows))
        while choice and choice[-1][2] <= blocks[choice[-1][0]][6]: choice.pop()
        if not choice or len(choice) > 500: return err, None
        choice[-1][2] -= 1; j = choice[-1][0]; del rows[choice[-1][1]:]
def rand_params(rng, big=False):
    bmin = rng.choice([rng.randint(2, 6), rng.randint(2, 40), rng.randint(100, 260) if big else rng.randint(2, 24)])
    bmax = bmin + rng.choice([0, rng.randint(0, 5), rng.randint(0, bmin)])
    tsamp = rng.choice([1.0, 1e-3, 64e-6, 0.1 * rng.random() + 1e-4])
    r = rng.random()
    if r < .4: pmin = tsamp * bmin
    elif r < .6: pmin = tsamp * bmin * rng.randint(1, 6)
    else: pmin = tsamp * bmin * rng.uniform(1, 5)
    pmin = max(pmin, tsamp * bmin)
    pmax = pmin * rng.choice([rng.uniform(1.0001, 1.2), rng.uniform(1.05, 4), rng.uniform(1.5, 30), 1 + 1.0 / bmin])
    N = rng.choice([rng.randint(1, 60), rng.randint(50, 1500), int(pmax / tsamp) + rng.randint(-2, 50), rng.randint(1000, 6000)])
    return max(1, N), tsamp, pmin, pmax, bmin, bmax
