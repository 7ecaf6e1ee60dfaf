"""The search loops of periodogram.hpp: contracts of periodogram_length and periodogram, with loop invariants.

Cycle k has factor f_k, n_k samples, and bins b = bins_min + j for j < J_k; block (k, j) has re(k, j) trials.
Ghost functions: T(k) = number of trials in the cycles before k, U(k, j) = number of trials of cycle k in the blocks
before j.  Invariant of the loop over cycles: at the start of cycle k, T(k) trials have been counted / stored; of the
loop over bins: T(k) + U(k, j).  An iteration writes only the output elements of its own trials, so that those of
earlier ones are preserved."""
import z3
from dv.core import *
from dv.machine import *
from dv.cxx import *
from dv.contract import *
from dv import spec_cxx
from dv.spec_cxx import *

IS, RS = z3.IntSort(), z3.RealSort()
AS = [IS, RS, RS, RS, IS, IS]
_T = z3.Function('trials_before_cycle', *([IS] + AS + [IS]))
_U = z3.Function('trials_before_block', *([IS, IS] + AS + [IS]))
_KK = z3.Function('cycle_of_trial', *([IS] + AS + [IS]))
_JJ = z3.Function('block_of_trial', *([IS] + AS + [IS]))
_SS = z3.Function('shift_of_trial', *([IS] + AS + [IS]))

def _fn(nm, nk, sort): 
    f = z3.Function('search_' + nm, *([IS] * nk + AS + [sort]))
    return f
_ini, _geo, _q = [_fn(x, 0, RS) for x in ('factor0', 'growth', 'cycles')]
_pw, _f, _tau, _P, _nq = [_fn(x, 1, RS) for x in ('power', 'factor', 'tau', 'period_max', 'nsamp')]

_re = _fn('rows', 2, IS)

class Grid:
    """the trial grid of a search as functions of its arguments (same roundings as the code in fp mode); the functions are
    uninterpreted symbols, their definitions (def_...) are used only in the lemmas that need them"""
    def __init__(s, m, a):
        s.m = m; n, ts, p0, p1, b0, b1 = a
        s.a = [simp(x) for x in (I(n), R(ts), R(p0), R(p1), I(b0), I(b1))]
        s.ini, s.geo, s.q = _ini(*s.a), _geo(*s.a), _q(*s.a)
        s.K = simp(fceil(s.q))
    def raw0(s):
        from dv import core
        n, ts, p0, p1, b0, b1 = s.a
        r = s.m.rnd0
        return [(s.ini, r(p0 / r(ts * R(b0)))), (s.geo, r(r(R(b1) + 1) / R(b0))), (s.q, r(r(core._log(simp(r(p1 / p0)))) / r(core._log(simp(s.geo)))))]
    def rawk(s, k):
        r = s.m.rnd0
        return [(s.pw(k), r(powi(s.geo, k))), (s.f(k), r(s.ini * s.pw(k))), (s.tau(k), r(s.f(k) * s.a[1])), (s.P(k), r(s.a[3] / s.tau(k))), (s.nq(k), r(R(s.a[0]) / s.f(k)))]
    def alias(s, pairs):
        for c, t in pairs: s.m.aliases[simp(t).get_id()] = (simp(t), c)
    def df(s, which, k=None):
        """definition of one of the symbols"""
        l = s.raw0() if k is None else s.rawk(k)
        c, t = l[{'ini': 0, 'geo': 1, 'q': 2, 'pw': 0, 'f': 1, 'tau': 2, 'P': 3, 'nq': 4}[which]]
        return c == t
    def pw(s, k): return _pw(I(k), *s.a)
    def f(s, k): return _f(I(k), *s.a)
    def tau(s, k): return _tau(I(k), *s.a)
    def P(s, k): return _P(I(k), *s.a)
    def nq(s, k): return _nq(I(k), *s.a)
    def n(s, k): return ffloor(s.nq(k))
    def n0(s): return dsize(s.m, s.a[0], s.ini)
    def bstop(s, k): return zmin(zmin(s.a[5], s.n(k)), ffloor(s.P(k)))
    def J(s, k):
        b = s.bstop(k); return z3.If(b >= s.a[4], b - s.a[4] + 1, I(0))
    def rows(s, k, b): return idiv(s.n(k), b)
    def pceil(s, k, b): return zmin(s.P(k), R(b) + 1)
    def cs(s, k, b): return CeilShift().effect(s.m, [s.rows(k, b), b, s.pceil(k, b)])
    def re(s, k, b): return _re(I(k), I(b), *s.a)
    def rawre(s, k, b): return zmin(s.rows(k, b), s.cs(k, b))
    def T(s, k): return _T(I(k), *s.a)
    def U(s, k, j): return _U(I(k), I(j), *s.a)
    def L(s): return s.T(s.K)
    def period(s, k, b, t): return s.tau(k) * R(b) * R(b) / (R(b) - R(t) / (R(s.rows(k, b)) - 1))
    def noise(s, k, b): return fsqrt(R(s.rows(k, b)) * DownsampledVariance().effect(s.m, [s.a[0], s.f(k)]))
    def of(s, o): return _KK(o, *s.a), simp(s.a[4] + _JJ(o, *s.a)), _SS(o, *s.a)

def lemma(m, name, f, defs=()):
    """prove f from the path condition and the given definitions, then use it"""
    ctx = m.ctx; n = len(ctx.pc)
    for d in defs: ctx.assume(d)
    ctx.oblige('lemma: ' + name, f, 'lemma')
    del ctx.pc[n:]; del ctx.pck[n:]
    ctx.assume(f)

def algebra(m, name, vals, hyp, goal):
    """prove hyp => goal for arbitrary reals, then use it for the given values (after proving hyp for them)"""
    ctx = m.ctx
    xs = [ctx.fresh('x', 'Real') for _ in vals]
    sub = (list(ctx.pc), list(ctx.pck), ctx.foralls)
    ctx.pc, ctx.pck, ctx.foralls = [], [], []
    try: ctx.oblige('lemma: ' + name, z3.Implies(hyp(*xs), goal(*xs)), 'lemma')
    finally: ctx.pc, ctx.pck, ctx.foralls = sub
    vs = [R(v) for v in vals]
    ctx.oblige('lemma: %s (applicable)' % name, hyp(*vs), 'lemma')
    ctx.assume(goal(*vs))

class Rule:
    """loop rule: invariants of the loop over cycles (level 0) and of the loop over bins (level 1)"""
    def __init__(s, m, c, a, outs):
        s.m, s.c, s.G, s.outs = m, c, Grid(m, a[:6]), outs      # outs: {object: (offset, scale, content check)}
        s.level = 0; s.k = None; s.analysing = 0
    def __call__(s, cond, body, inc, name):
        m, ctx = s.m, s.m.ctx
        if s.level > 1: return False
        lv = s.level; S0 = m.snap(); idx0 = list(ctx.idx); fr0 = ctx.fresh_n
        k = z3.Const(('cycle!%d' if lv == 0 else 'block!%d') % fr0, IS)
        base = (list(ctx.pc), list(ctx.pck), list(ctx.foralls))
        def reset(): ctx.pc, ctx.pck, ctx.foralls = list(base[0]), list(base[1]), list(base[2]); ctx.idx = list(idx0)
        modc, moda, unit = s.modified(S0, cond, body, inc, k, reset)
        reset(); m.restore(S0)
        if s.analysing:        # inside the analysis of the outer loop: only the modified locations matter
            vals = {l: m.havoc_leaf(m.getleaf(S0[0][l[0]], l[1]), 'l') for l in modc}
            st = m.apply_leafs(S0, vals); arrs = dict(st[1])
            for i in moda: arrs[i] = m.havoc_arr(S0[1][i])
            m.restore((st[0], arrs) + tuple(st[2:])); return True
        G = s.G
        trip = G.K if lv == 0 else G.J(s.k)
        g = (lambda x: G.T(x)) if lv == 0 else (lambda x: G.U(s.k, x))
        base_off = I(0) if lv == 0 else G.T(s.k)
        def closed(loc, kt, final=False, brk=False):
            v0 = m.getleaf(S0[0][loc[0]], loc[1])
            if isinstance(v0, Ptr) and v0.obj in s.outs: return Ptr(v0.obj, simp(v0.off + g(kt) * s.outs[v0.obj][1]))
            if isinstance(v0, int) and not isinstance(v0, bool): v0 = I(v0)
            if z3.is_expr(v0) and z3.is_int(v0):
                if loc in unit: return UNKNOWN if brk else simp(v0 + kt)
                return simp(v0 + g(kt))
            return UNKNOWN
        def state(kt, final=False, brk=False):
            vals = {l: closed(l, kt, final, brk) for l in modc}
            st = m.apply_leafs(S0, vals); arrs = dict(st[1])
            for i in moda:
                if i in s.outs:
                    off, sc, chk, con = s.outs[i]; lo = off + base_off * sc
                    arrs[i] = S0[1][i].write(lo, lo + g(kt) * sc, con, kind='write')
                else: arrs[i] = m.havoc_arr(S0[1][i])
            return (st[0], arrs) + tuple(st[2:])
        # ---- is this the loop of the specification: it runs exactly `trip` times
        ctx.idx = idx0 + [k]
        m.restore(state(k))
        ctx.assume(0 <= k)
        s.facts(lv, k, False)
        try: c = cond()
        except Unsupported: raise
        ctx.oblige('%s: the loop over %s runs as often as specified' % (m.fname(), ('cycles', 'bins')[lv]), c == (k < trip), 'loop')
        ctx.assume(k < trip)
        s.facts(lv, k, True)
        st1 = m.snap()
        s.level += 1
        old = s.k
        if lv == 0: s.k = k
        try: paths = m.explore(lambda: s.iteration(lv, k, S0, st1, modc, moda, closed, g, base_off, body, inc))
        finally: s.level -= 1; s.k = old
        brk = any(p.outcome == 'break' for p in paths)
        if not paths: raise Unsupported('search loop body has no feasible path')
        reset()
        m.restore(state(trip, True, brk))
        s.exitfacts(lv)
        return True
    def iteration(s, lv, k, S0, st1, modc, moda, closed, g, base_off, body, inc):
        m, ctx, G = s.m, s.m.ctx, s.G
        nm = '%s, loop over %s' % (m.fname(), ('cycles', 'bins')[lv])
        r = m.run_iter(body, inc)
        if isinstance(r, CBreak):
            kt = ctx.fresh('later'); n0 = len(ctx.pc)
            ctx.assume(z3.And(kt >= k, kt < G.K)) if lv == 0 else None
            if lv == 0:
                s.facts(0, kt, True)
                s.monotone(k, kt)
                ctx.oblige('%s: when it is left early, no later cycle has any trial' % nm, G.J(kt) == 0, 'loop')
            else: ctx.oblige('%s: it is not left early' % nm, z3.BoolVal(False), 'loop')
            del ctx.pc[n0:]; del ctx.pck[n0:]
            return 'break'
        if isinstance(r, CThrow):
            ctx.oblige('%s: no exception is thrown' % nm, z3.BoolVal(False), 'exceptional'); return 'throw'
        if r is not None: raise Unsupported('%s is left by %s' % (nm, type(r).__name__))
        end = m.snap()
        for l in modc:
            want = closed(l, k + 1); got = m.getleaf(end[0][l[0]], l[1])
            if want is UNKNOWN: continue
            compare_value(m, '%s: invariant (%s counts the trials so far)' % (nm, s.leafname(l, S0)), got, want)
        for i in moda:
            if i not in s.outs: continue
            off, sc, chk, con = s.outs[i]; a = end[1][i]
            lo, hi = simp(off + (base_off + g(k)) * sc), simp(off + (base_off + g(k + 1)) * sc)
            ws = a.writes_since(st1[1][i])
            if ws is None: raise Unsupported('output array replaced')
            for w in ws:
                ctx.oblige('%s: only the elements of its own trials are written to %s' % (nm, a.name), z3.Or(w.lo >= w.hi, z3.And(w.lo >= lo, w.hi <= hi)), 'frame')
            if lv == 1:
                o = ctx.fresh('o'); n0 = len(ctx.pc)
                ctx.assume(z3.And(0 <= o, o < simp(hi - lo)))
                b = simp(G.a[4] + k); re = G.re(s.k, b)
                ctx.assume(z3.And(0 <= idiv(o, sc), idiv(o, sc) < re)) if cval(simp(I(sc))) != 1 else ctx.assume(o < re)
                chk(a, simp(lo + o), o, s.k, b)
                del ctx.pc[n0:]; del ctx.pck[n0:]
        return 'ok'
    def leafname(s, l, S0):
        v = m_ = s.m.getleaf(S0[0][l[0]], l[1])
        return s.m.arrs[v.obj].name + ' pointer' if isinstance(v, Ptr) and v.obj in s.m.arrs else 'counter'
    def modified(s, S0, cond, body, inc, k, reset):
        m, ctx = s.m, s.m.ctx
        modc, moda = {}, set(); idx0 = list(ctx.idx)
        for rnd in range(8):
            reset(); ctx.idx = idx0 + [k]; ctx.quiet += 1; ctx.cheap += 1; s.analysing += 1; s.level += 1
            oldk = s.k; s.k = k if s.level == 1 else s.k
            try:
                vals = {l: m.havoc_leaf(m.getleaf(S0[0][l[0]], l[1]), 'l') for l in modc}
                st = m.apply_leafs(S0, vals); arrs = dict(st[1])
                for i in moda: arrs[i] = m.havoc_arr(S0[1][i])
                m.restore((st[0], arrs) + tuple(st[2:]))
                ctx.assume(0 <= k)
                st1 = m.snap()
                c = cond(); ctx.assume(c if z3.is_expr(c) else z3.BoolVal(c))
                paths = m.explore(lambda: m.run_iter(body, inc))
            finally:
                ctx.quiet -= 1; ctx.cheap -= 1; s.analysing -= 1; s.level -= 1; ctx.idx = idx0; s.k = oldk
            newc, newa = set(), set()
            for p in paths:
                mc, ma = m.diff(st1, p.state)
                newc |= {l for l in mc if l[0] in S0[0]}; newa |= {x for x in ma if x in S0[1]}
            if newc <= set(modc) and newa <= moda: break
            for l in newc: modc[l] = True
            for l in list(modc):
                if any(l != q and l[0] == q[0] and l[1][:len(q[1])] == q[1] for q in modc): del modc[l]
            moda |= newa
        else: raise Unsupported('loop modified set does not stabilise')
        unit = set()
        for l, v in vals.items():
            if not z3.is_expr(v) or not z3.is_int(v): continue
            ps = [m.getleaf(p.state[0][l[0]], l[1]) for p in paths if p.outcome is None]
            if ps and all(z3.is_expr(x) and cval(simp(x - v)) == 1 for x in ps): unit.add(l)
        return modc, moda, unit
    # ---- facts about the grid
    def facts(s, lv, k, inside):
        """lemmas about cycle k (level 0) or block k of the current cycle (level 1), each proved before it is used; the
        ghost functions are defined by their recurrences"""
        m, ctx, G = s.m, s.m.ctx, s.G
        n, ts, p0, p1, b0, b1 = G.a
        if lv == 0 and not inside:
            ctx.assume(G.T(0) == 0)
            return
        if lv == 0:
            cyc_lemmas(m, G, k)
            lemma(m, 'there are no trials when there are fewer samples than bins', z3.Implies(n < b0, G.J(k) == 0))
            ctx.assume(z3.And(G.T(k) >= 0, G.U(k, 0) == 0, G.T(k + 1) == G.T(k) + G.U(k, G.J(k)), G.T(k + 1) <= G.T(G.K)))
            return
        kk = s.k; b = simp(b0 + k)
        if not inside: return
        re = G.re(kk, b)
        lemma(m, 'a block has at least one row', z3.And(G.rows(kk, b) >= 1, G.rows(kk, b) * b <= G.n(kk)))
        s.block(kk, b)
        ctx.assume(z3.And(G.U(kk, k) >= 0, G.U(kk, k + 1) == G.U(kk, k) + re, G.U(kk, k + 1) <= G.U(kk, G.J(kk))))
        for o, (off, sc, chk, con) in s.outs.items():
            if cval(simp(I(sc))) == 1: continue
            sc = I(sc)
            ctx.assume(z3.And(G.T(kk) * sc + G.U(kk, k) * sc + re * sc <= G.T(G.K) * sc, (G.T(kk) + G.U(kk, k)) * sc >= 0, re * sc >= 0))      # products of the above with sc >= 1
    def block(s, kk, b):
        m, G, ctx = s.m, s.G, s.m.ctx
        pc_ = G.pceil(kk, b); rows = R(G.rows(kk, b))
        lemma(m, 'the period limit of a block is in [b, b + 1]', z3.And(pc_ >= R(b), pc_ <= R(b) + 1))
        x = ctx.fresh('x', 'Real')
        algebra(m, 'the shift at the period limit is not negative', [b, rows, pc_], lambda B, r, p: z3.And(B >= 1, r >= 1, p >= B), lambda B, r, p: B * (r - 1) * (1 - B / p) >= 0)
        lemma(m, 'the number of rows up to the period limit is not negative', G.cs(kk, b) >= 0)
        df = G.re(kk, b) == G.rawre(kk, b); re = G.re(kk, b)
        G.alias([(re, G.rawre(kk, b))]); ctx.defs = list(ctx.defs) + [df]
        lemma(m, 'the number of rows evaluated is at most the number of rows', z3.And(re >= 0, re <= G.rows(kk, b)), [df])
        lemma(m, 'a row is evaluated only if there are at least two', z3.Implies(re >= 1, G.rows(kk, b) >= 2), [df])
        if not s.outs: return
        f = G.f(kk); kf, r = fracpos(f); x = toreal(G.n(kk)) * r
        V = DownsampledVariance().effect(m, [G.a[0], f])
        algebra(m, 'the noise variance is positive, when phases repeat', [toreal(kf), x], lambda q, y: q >= 1, lambda q, y: q - y + 2 * y * y / 3 > 0)
        lemma(m, 'the noise variance is positive', V > 0)
        algebra(m, 'the noise variance of a sum of rows is positive', [rows, V], lambda q, y: z3.And(q >= 1, y > 0), lambda q, y: q * y > 0)
    def exitfacts(s, lv):
        G = s.G
        if lv == 0: s.m.ctx.assume(z3.And(G.T(0) == 0, G.T(G.K) >= 0))
        else: s.m.ctx.assume(G.U(s.k, G.J(s.k)) >= 0)
    def monotone(s, k, kt):
        m, G = s.m, s.G
        mono_lemma(m, G, k, kt)

def cyc_lemmas(m, G, k):
    ctx = m.ctx
    n, ts, p0, p1, b0, b1 = G.a
    G.alias(G.rawk(k))
    ctx.assume(G.pw(k) >= 1)        # powers of a number above 1 are at least 1
    lemma(m, 'every factor is at least the first', G.f(k) >= G.ini, [G.df('f', k)])
    lemma(m, 'the number of samples does not grow', z3.And(G.n(k) <= G.n0(), G.n(k) >= 0, G.n(k) <= n), [G.df('nq', k)])
    lemma(m, 'the factor does not exceed the size while samples are left', z3.Implies(G.n(k) >= 1, G.f(k) <= R(n)), [G.df('nq', k)])
    lemma(m, 'the sampling time is positive', G.tau(k) > 0, [G.df('tau', k)])
    lemma(m, 'the period limit is positive', G.P(k) > 0, [G.df('P', k)])
    ctx.assume(G.P(k) < 2 ** 62)    # assumption: period_max / tau fits in 64 bits

def mono_lemma(m, G, k, kt):
    m.ctx.assume(G.pw(kt) >= G.pw(k))       # powers of a number above 1 increase
    lemma(m, 'later factors are not smaller', G.f(kt) >= G.f(k), [G.df('f', k), G.df('f', kt)])
    lemma(m, 'later cycles do not have more samples', G.n(kt) <= G.n(k), [G.df('nq', k), G.df('nq', kt)])

def sargs(m):
    c = m.ctx
    return [nat(m, 'size')] + [c.fresh(n, 'Real') for n in ('tsamp', 'period_min', 'period_max')] + [nat(m, 'bins_min'), nat(m, 'bins_max')]

def limits(m, a):
    m.aliases = {}
    G = Grid(m, a); G.alias(G.raw0())
    ok = z3.Not(bad_search(a))
    n, ts, p0, p1, b0, b1 = G.a
    L = lambda nm, f, ds: lemma(m, nm, z3.Implies(ok, f), ds)
    L('the first factor is at least 1', G.ini >= 1, [G.df('ini')])
    L('factors grow', G.geo > 1, [G.df('geo')])
    L('the number of cycles is not negative', G.q >= 0, [G.df('q')])
    m.ctx.assume(z3.Implies(ok, G.K < MAXLEN))

class PeriodogramLength(Contract):
    key = 'periodogram_length/6'
    def setup(s, m):
        a = sargs(m)
        s.a = a
        m.loop_hook = Rule(m, s, a, {})
        limits(m, a)
        return a
    def raises(s, m, a): return bad_search(a)
    def effect(s, m, a):
        G = Grid(m, a); m.ctx.assume(z3.And(G.L() >= 0, G.L() < MAXLEN, z3.Implies(I(a[0]) < I(a[4]), G.L() == 0)))      # the last by induction from the lemma about fewer samples than bins
        return G.L()

def search_input(m, G, X, k):
    """(content, start) of the data at the resolution of cycle k; X = (content, start) of the data"""
    x, off = X
    f = G.f(k); n = G.a[0]
    if m.ctx.quick(f == 1): return x, off
    D = lambda q: integral(m, lambda i: x(simp(off + I(i))), n, (R(q) + 1) * f) - integral(m, lambda i: x(simp(off + I(i))), n, R(q) * f)
    if m.ctx.quick(f != 1): return D, I(0)
    return (lambda q: z3.If(f == 1, x(simp(off + q)), D(q))), I(0)

def trial_snr(m, G, X, W, k, b, t, w):
    """S/N of width number w of trial (k, b, t)"""
    Xk, o0 = search_input(m, G, X, k); rows = G.rows(k, b)
    return boxcar_snr(m, lambda e: ffa(Xk, o0, rows, b, idiv(simp(t * b + e), b), imod(simp(t * b + e), b)), b, W(w), G.noise(k, b))

def base_content(m, p):
    a = m.arrs[p.obj]
    return (lambda i: a.sel(simp(I(i)), m.ctx)), p.off

class Periodogram(Contract):
    key = 'periodogram/12'
    def setup(s, m):
        n, ts, p0, p1, b0, b1 = sargs(m)
        sa = [n, ts, p0, p1, b0, b1]
        ctx = m.ctx
        nw = nat(m, 'num_widths', 1)
        G = Grid(m, sa); L = G.L(); ctx.assume(z3.And(L >= 0, L < MAXLEN))
        limits(m, sa)
        W = buf(m, 'widths', 0, nw, 'Int'); D = buf(m, 'data', 0, n)
        c = ctx.fresh('snrcells'); ctx.assume(c == L * nw)
        P, F, S = buf(m, 'periods', 0, L, ini=False), buf(m, 'foldbins', 0, L, 'Int', ini=False), buf(m, 'snr', 0, c, ini=False)
        a = [D, n, ts, W, nw, p0, p1, b0, b1, P, F, S]
        m.loop_hook = Rule(m, s, sa, s.outs(m, a))
        return a
    def sa(s, a): return [a[1], a[2], a[5], a[6], a[7], a[8]]
    def raises(s, m, a): return bad_search(s.sa(a))
    def pre(s, m, a):
        D, n, ts, W, nw, p0, p1, b0, b1, P, F, S = a
        L = Grid(m, s.sa(a)).L()
        return [('at least one width', nw > 0), ('data in bounds', inb(m, D, n)), ('widths in bounds', inb(m, W, nw)),
                ('periods in bounds', inb(m, P, L)), ('foldbins in bounds', inb(m, F, L)), ('snr in bounds', inb(m, S, L * nw)),
                ('outputs distinct from inputs', distinct(D, W, P, F, S)),
                ('every width is > 0 and < bins_min', ForAll(m.arrs[W.obj], W.off, W.off + nw, lambda v, i: z3.And(v > 0, v < b0)))]
    def vals(s, m, a):
        """(pointer, scale, value of trial (k, b, t) [, width]) of every output"""
        D, n, ts, W, nw, p0, p1, b0, b1, P, F, S = a
        G = Grid(m, s.sa(a)); X, Wc = base_content(m, D), content(m, W)
        return G, [(P, I(1), lambda k, b, t, w: G.period(k, b, t)), (F, I(1), lambda k, b, t, w: b), (S, nw, lambda k, b, t, w: trial_snr(m, G, X, Wc, k, b, t, w))]
    def con(s, m, G, p, sc, val):
        one = cval(simp(sc)) == 1
        def g(o):
            i = simp(o - p.off); k, b, t = G.of(i if one else idiv(i, sc))
            return val(k, b, t, I(0) if one else imod(i, sc))
        return g
    def outs(s, m, a):
        G, vs = s.vals(m, a); out = {}
        nm = ['periods', 'bin numbers', 'S/N']
        for (p, sc, val), name in zip(vs, nm):
            def chk(arr, off, o, k, b, sc=sc, val=val, name=name):
                one = cval(simp(sc)) == 1
                m.ctx.oblige('every trial of a block has its %s' % name, arr.sel(off, m.ctx, ini=True), 'init')
                if not getattr(m, 'no_values', False):
                    m.ctx.oblige('%s of a trial' % name, arr.sel(off, m.ctx) == val(k, b, o if one else idiv(o, sc), I(0) if one else imod(o, sc)), 'post')
            out[p.obj] = (p.off, sc, chk, s.con(m, G, p, sc, val))
        return out
    def effect(s, m, a):
        G, vs = s.vals(m, a)
        for p, sc, val in vs:
            m.arrs[p.obj] = m.arrs[p.obj].write(p.off, p.off + G.L() * sc, s.con(m, G, p, sc, val))

class BPeriodogram(Binding):
    key = 'periodogram/7'
    def setup(s, m):
        x = lim(m, m.new_pyarray('data'))[0]; w = lim(m, m.new_pyarray('widths', sort='Int'))[0]
        n, ts, p0, p1, b0, b1 = sargs(m)
        m.ctx.assume(n == x.f['s0'])
        s.bad = bad_widths(m, w, b0)
        return [x, ts, w, p0, p1, b0, b1]
    def raises(s, m, a):
        x, ts, w, p0, p1, b0, b1 = a
        sa = [x.f['s0'], ts, p0, p1, b0, b1]
        return z3.Or(bad1(x), bad1(w), s.bad, bad_search(sa), Grid(m, sa).L() == 0)
    def results(s, m, a):
        x, ts, w, p0, p1, b0, b1 = a
        sa = [x.f['s0'], ts, p0, p1, b0, b1]
        G = Grid(m, sa); X, W = base_content(m, x.f['ptr']), pcontent(m, w); nw = w.f['s0']
        def pv(o): k, b, t = G.of(o); return G.period(k, b, t)
        def fv(o): return G.of(o)[1]
        def sv(o): k, b, t = G.of(idiv(o, nw)); return trial_snr(m, G, X, W, k, b, t, imod(o, nw))
        return [Res([G.L()], pv), Res([G.L()], fv), Res([G.L(), nw], sv)]

SALL = [PeriodogramLength, Periodogram]
SBALL = [BPeriodogram]
