"""Contracts of the peak detection."""
from fractions import Fraction
import z3
from dv.core import *
from dv.machine import *
from dv.pyval import *
from dv import pyx, pylib
from dv.pyx import Py, FA, InvSpec, load
from dv.pyspecs import *
from dv.pyspecs import spec, PySpec, bad, eq, arr_post, known, within, nat, real, sarr, mk_metadata
from dv.pyspecs2 import *
from dv.pyspecs2 import IS, RS, pk, inverse, dct
from dv.pyspecs3 import *
from dv.pyspecs3 import Flat, FlatInv, opaque, cluster_model, cd_n, cd_i, argmaxes, mk_obj, opq_clusters

def flog(x): return z3.Function('flog', RS, RS)(R(x))
def seg(f, s, n, T, w):
    """number of segments, trials per segment, median frequency, median and deviation of the S/N of segment k"""
    d = R(f(n - 1)) - R(f(I(0)))
    m = fceil(R(T) * z3.If(d >= 0, d, -d) / R(w))
    p = pyx_floordiv(n, m)
    fc = lambda k: pylib.median_of(lambda u: f(simp(I(k) * p + u)), p)
    q = lambda k, x: pylib.pct_of(lambda u: s(simp(I(k) * p + u)), p, x)
    return m, p, fc, lambda k: q(k, I(50)), lambda k: (q(k, I(75)) - q(k, I(25))) / R(Fraction(1.349))
def pyx_floordiv(n, m): return simp(idiv(I(n), I(m)))     # m > 0
@spec
class SegmentStats(PySpec):
    key = 'riptide.peak_detection.segment_stats'
    cases = ['given', 'default']
    def setup(s, E, case):
        s.n = nat(E, 'n', 1); s.f, s.s = sarr(E, 'f', [s.n]), sarr(E, 's', [s.n])
        s.T = real(E, 'T', 0); s.w = real(E, 'segwidth', 0) if case == 'given' else R(5)
        s.v = seg(E.reader(s.f), E.reader(s.s), s.n, s.T, s.w)
        E.ctx.assume(z3.And(s.v[0] >= 1, s.v[0] <= s.n))
        return [s.f, s.s, s.T], ({'segwidth': s.w} if case == 'given' else {})
    def post(s, E, a, r, s0, case):
        m, p, fc, med, std = s.v; L = s.label
        if not isinstance(r, tuple) or len(r) != 3: return bad(E, L + ': returns three arrays')
        arr_post(E, L + ': median frequencies', r[0], [m], fc)
        arr_post(E, L + ': median S/N', r[1], [m], med)
        arr_post(E, L + ': deviations', r[2], [m], std)
    def frame(s, E, a): return [('the frequencies', s.f), ('the S/N', s.s)]
    def effect(s, E, b):
        f, x = E.thaw(b['f']), E.thaw(b['s'])
        if not isinstance(f, ND) or not isinstance(x, ND) or len(f.shape) != 1 or len(x.shape) != 1: raise Unsupported('arguments of segment_stats')
        E.ctx.oblige('segment_stats: sizes agree', f.shape[0] == x.shape[0], 'pre')
        m, p, fc, med, std = seg(E.reader(f), E.reader(x), f.shape[0], E.num(b['T']), E.num(b['segwidth']))
        E.ctx.oblige('segment_stats: at least one segment, at least one trial per segment', z3.And(m >= 1, m <= f.shape[0]), 'pre')
        return tuple(E.arr([m], g) for g in (fc, med, std))
@spec
class FitThreshold(PySpec):
    key = 'riptide.peak_detection.fit_threshold'
    cases = ['given', 'default']
    has_effect = False
    def setup(s, E, case):
        s.n = nat(E, 'n', 1); s.f, s.t = sarr(E, 'fc', [s.n]), sarr(E, 'tc', [s.n])
        s.d = nat(E, 'polydeg', 0) if case == 'given' else I(2)
        return [s.f, s.t], ({'polydeg': s.d} if case == 'given' else {})
    def post(s, E, a, r, s0, case):
        if not isinstance(r, LibObj) or r.name != 'numpy.poly1d': return bad(E, s.label + ': returns a polynomial')
        f, t = E.reader(s.f), E.reader(s.t)
        arr_post(E, s.label + ': least squares fit in log frequency', r.args[0], [s.d + 1], lambda k: pylib.polyfit_val(lambda u: flog(f(u)), t, s.n, s.d, k))
@spec
class FindPeaksSingle(PySpec):
    key = 'riptide.peak_detection.find_peaks_single'
    cases = ['given', 'defaults']
    has_effect = False
    D = {'smin': R(6), 'segwidth': R(5), 'nstd': R(7), 'minseg': I(10), 'polydeg': I(2), 'clrad': R(Fraction(0.1))}
    def prepare(s, E): cluster_model(E, s)
    def setup(s, E, case):
        s.n = nat(E, 'n', 1); s.fa, s.sa = sarr(E, 'f', [s.n]), sarr(E, 's', [s.n]); s.T = real(E, 'T', 0)
        s.v = dict(s.D) if case == 'defaults' else {'smin': real(E, 'smin'), 'segwidth': real(E, 'segwidth', 0), 'nstd': real(E, 'nstd'), 'minseg': nat(E, 'minseg', 1), 'polydeg': nat(E, 'polydeg', 0), 'clrad': real(E, 'clrad', 0)}
        v = s.v; f, x = E.reader(s.fa), E.reader(s.sa); s.f, s.s = f, x
        m, p, fc, med, std = seg(f, x, s.n, s.T, v['segwidth'])
        E.ctx.assume(z3.And(m >= 1, m <= s.n)); s.m = m
        co = lambda k: pylib.polyfit_val(lambda u: flog(fc(u)), lambda u: med(u) + R(v['nstd']) * std(u), m, v['polydeg'], k)
        s.co = co; s.thr = lambda i: z3.If(m >= v['minseg'], pylib.polyval(co, v['polydeg'] + 1, flog(f(i))), R(v['smin']))
        s.sig = lambda i: z3.And(x(i) > s.thr(i), x(i) > R(v['smin']))
        return [s.fa, s.sa, s.T], ({} if case == 'defaults' else dict(v))
    def post(s, E, a, r, s0, case):
        ctx, L, v = E.ctx, s.label, s.v
        if not isinstance(r, tuple) or len(r) != 2: return bad(E, L + ': returns peak indices and coefficients')
        l, pc = E.thaw(r[0]), E.thaw(r[1])
        if not isinstance(l, LST): return bad(E, L + ': returns a list of indices')
        if len(s.calls) != 1: return bad(E, L + ': groups the significant trials once')
        n, rd, rad, srt, K = s.calls[0]
        eq(E, L + ': grouping radius', rad, v['clrad'] / s.T)
        so = E.truth(srt)
        p, q, i, g, t = [ctx.fresh(k) for k in ('p', 'q', 'trial', 'group', 't')]
        if not (so is False or z3.is_expr(so) and z3.is_false(simp(so))): raise Unsupported('grouping of sorted frequencies')
        # the grouped values are the frequencies of some trials: which ones
        pr = unique_bound(); x = simp(R(rd(pr))); st = [x]; idx = None
        fn = s.f(unique_bound()).decl().name()
        while st:
            y = st.pop()
            if z3.is_app(y):
                if y.decl().name() == fn and occurs(y, [pr]): idx = y.children()[-1]; break
                st += y.children()
        if idx is None: return bad(E, L + ': groups the frequencies of trials')
        at = lambda u: simp(z3.substitute(idx, (pr, I(u))))
        s.at = at
        within(E, [0 <= p, p < n], lambda: (ctx.oblige(L + ': frequencies are grouped', rd(p) == s.f(at(p)), 'post'), ctx.oblige(L + ': only significant trials are grouped', z3.And(0 <= at(p), at(p) < s.n, s.sig(at(p))), 'post')))
        within(E, [0 <= p, p < q, q < n], lambda: ctx.oblige(L + ': no trial is grouped twice', at(p) != at(q), 'post'))
        w = inverse(idx, pr, i)
        if w is None: raise Unsupported('selection of the significant trials')
        within(E, [0 <= i, i < s.n, s.sig(i)], lambda: ctx.oblige(L + ': every significant trial is grouped', z3.And(0 <= w, w < n, at(w) == i), 'post'))
        ctx.oblige(L + ': one peak per group', l.n == K, 'post')
        if cval(simp(l.n)) == 0: return
        def one():
            x = simp(E.num(l.at(g, ctx))); argmaxes(E, x)
            st, cand = [x], []
            while st:
                y = st.pop()
                if z3.is_app(y):
                    if y.decl().name() == 'cluster.index': cand.append(y)
                    st += y.children()
            ctx.oblige(L + ': the peak is a trial of the group', z3.Or(*[z3.And(y.arg(0) == g, 0 <= y.arg(1), y.arg(1) < cd_n(g), x == at(y)) for y in cand] or [z3.BoolVal(False)]), 'post')
            within(E, [0 <= t, t < cd_n(g)], lambda: ctx.oblige(L + ': no trial of the group has a higher S/N', s.s(at(cd_i(g, t))) <= s.s(x), 'post'))
        within(E, [0 <= g, g < K], one)
        if isinstance(pc, LST) or isinstance(pc, tuple):
            sq = E.seq(pc)
            within(E, [], lambda: ctx.oblige(L + ': a constant threshold is used when there are too few segments', z3.And(s.m < v['minseg'], sq.n == 1), 'post'))
            eq(E, L + ': the constant threshold is the minimum S/N', sq.fn(I(0)), v['smin'])
        elif isinstance(pc, ND):
            within(E, [s.m >= v['minseg']], lambda: arr_post(E, L + ': threshold coefficients', pc, [v['polydeg'] + 1], s.co))
        else: bad(E, L + ': threshold coefficients')
    def frame(s, E, a): return [('the frequencies', s.fa), ('the S/N', s.sa)]
PEAK_FIELDS = ('period', 'freq', 'width', 'ducy', 'iw', 'ip', 'snr', 'dm')
PK = z3.Function('Peak.of', IS, IS, IS)     # the peak at (width index, trial index)
def single(E, f, x, n, T, v):
    """number of peaks, index of peak j of one width trial, as functions of the S/N and the parameters"""
    ex = [simp(I(n)), R(T)] + [R(v[k]) for k in ('smin', 'segwidth', 'nstd', 'minseg', 'polydeg', 'clrad')]
    N = hosym('NPEAKS', lambda u: R(x(u)), ex, IS)
    return N, lambda j: hosym('PEAKIDX', lambda u: R(x(u)), ex + [simp(I(j))], IS)
@spec
class FindPeaks(PySpec):
    key = 'riptide.peak_detection.find_peaks'
    cases = ['given', 'defaults', 'no DM']
    has_effect = False
    D = dict(FindPeaksSingle.D, nstd=R(6))
    def prepare(s, E):
        opq_clusters(E)
        def fps(E, b):
            f, x = E.thaw(b['f']), E.thaw(b['s'])
            if not isinstance(f, ND) or not isinstance(x, ND) or len(f.shape) != 1 or len(x.shape) != 1: raise Unsupported('arguments of find_peaks_single')
            L = 'peak_detection.find_peaks'; rf, rx = E.reader(f), E.reader(x); u = E.ctx.fresh('u')
            E.ctx.oblige(L + ': the frequencies of all trials are searched', z3.And(f.shape[0] == s.n, x.shape[0] == s.n), 'post')
            within(E, [0 <= u, u < s.n], lambda: E.ctx.oblige(L + ': frequencies are the inverse of the periods', R(rf(u)) == 1 / R(s.per(u)), 'post'))
            E.ctx.oblige(L + ': S/N as double precision values', z3.BoolVal(E.dtype(x) == 'float64'), 'post')
            N, at = single(E, rf, rx, x.shape[0], E.num(b['T']), {k: E.num(b[k]) for k in s.D})
            E.ctx.assume(N >= 0)
            E.assume_fact(FA(1, lambda j: (z3.And(0 <= j, j < N), z3.And(0 <= at(j), at(j) < s.n)), [(at(unique_bound()).decl().name(), at(I(0)).num_args() - 1)]))
            return LST(newoid(), N, lambda j: at(j)), Opq('Polyco', N)
        E.contracts['riptide.peak_detection.find_peaks_single'] = fps
        def new(E, args, kw):
            f = dict(zip(PEAK_FIELDS, args))
            for k, v in kw.items():
                if k not in PEAK_FIELDS or k in f: raise CThrow('TypeError', k)
                f[k] = v
            if set(f) != set(PEAK_FIELDS): raise CThrow('TypeError', 'missing field')
            iw, ip = E.num(f['iw']), E.num(f['ip']); L = 'peak_detection.find_peaks: peak parameters'
            if not z3.is_int(iw) or not z3.is_int(ip): raise Unsupported('index of a peak is not an integer')
            E.ctx.oblige(L + ': indices are those of a trial', z3.And(0 <= iw, iw < s.nw, 0 <= ip, ip < s.n), 'post')
            want = s.fields(iw, ip)
            for k in PEAK_FIELDS: eq(E, L + ': ' + k, f[k], want[k])
            return Opq('Peak', PK(iw, ip))
        E.contracts['riptide.peak_detection.Peak'] = new
    def setup(s, E, case):
        s.n, s.nw = nat(E, 'ntrials', 1), nat(E, 'nwidths', 0)
        s.P, s.W, s.B, s.S = sarr(E, 'periods', [s.n]), sarr(E, 'widths', [s.nw], 'Int', 'int64'), sarr(E, 'foldbins', [s.n], 'Int', 'uint32'), sarr(E, 'snrs', [s.n, s.nw], 'Real', 'float32')
        per, wid, bins, snr = [E.reader(k) for k in (s.P, s.W, s.B, s.S)]; s.per = per
        nm = per(I(0)).decl().name()
        E.assume_fact(FA(1, lambda u: (z3.And(0 <= u, u < s.n), per(u) > 0), [(nm, 0)]))
        E.assume_fact(FA(1, lambda u: (z3.And(0 <= u, u < s.n), bins(u) >= 1), [(bins(I(0)).decl().name(), 0)]))
        s.T = real(E, 'tobs', 0); s.dm = None if case == 'no DM' else real(E, 'dm')
        md = E.modval(load(E.repo, 'riptide.metadata'), 'Metadata')
        s.md = ORef(E.new(StructVal('Metadata', {'__class__': md, '__dict__': dct({'tobs': s.T, 'dm': s.dm})})))
        s.pg = mk_obj(E, 'riptide.periodogram', 'Periodogram', widths=s.W, periods=s.P, foldbins=s.B, snrs=s.S, metadata=s.md)
        v = dict(s.D) if case == 'defaults' else {'smin': real(E, 'smin'), 'segwidth': real(E, 'segwidth', 0), 'nstd': real(E, 'nstd'), 'minseg': nat(E, 'minseg', 1), 'polydeg': nat(E, 'polydeg', 0), 'clrad': real(E, 'clrad', 0)}
        rc, jc = z3.Int('width_index'), z3.Int('peak_number')
        N0, at0 = single(E, None, lambda u: snr(u, rc), s.n, s.T, v); at0 = at0(jc)
        sg = lambda r: (z3.substitute(N0, (rc, simp(I(r)))), lambda j: z3.substitute(at0, (rc, simp(I(r))), (jc, simp(I(j)))))
        def fields(r, i):
            f = 1 / R(per(i))
            return {'period': R(per(i)), 'freq': f, 'width': wid(I(r)), 'ducy': R(wid(I(r))) / R(bins(i)), 'iw': I(r), 'ip': i, 'snr': snr(i, I(r)), 'dm': s.dm}
        s.fields = fields
        s.flat = Flat(E, 'peaks', s.nw, lambda r: sg(r)[0], lambda r, j: PK(I(r), sg(r)[1](j)))
        return [s.pg], ({} if case == 'defaults' else dict(v))
    def invs(s, E):
        def m(E, node):
            if E.loopseq is None: return False
            x = E.loopseq.fn(unique_bound())
            return isinstance(x, tuple) and len(x) == 2
        return [FlatInv(s, m, 'loop over the widths')]
    def post(s, E, a, r, s0, case):
        ctx, L, fl = E.ctx, s.label, s.flat
        if not isinstance(r, tuple) or len(r) != 2: return bad(E, L + ': returns peaks and thresholds')
        g = E.thaw(r[0])
        if not isinstance(g, LST): return bad(E, L + ': returns a list of peaks')
        n = g.n
        ctx.oblige(L + ': number of peaks', n == fl.off(fl.N), 'post')
        if cval(n) == 0: return
        probe = unique_bound()
        if fl.ident(g, probe) is None: return bad(E, L + ': returns a list of peaks')
        v = lambda i: fl.ident(g, i)
        p, q, c, j = ctx.fresh('p'), ctx.fresh('q'), ctx.fresh('width'), ctx.fresh('j')
        within(E, [0 <= p, p < q, q < n], lambda: ctx.oblige(L + ': peaks are in decreasing order of S/N', pk('snr', v(p)) >= pk('snr', v(q)), 'post'))
        st = [simp(v(probe))]; pos = None
        while st and pos is None:
            x = st.pop()
            if z3.is_app(x) and x.decl().name().split('@')[0] in ('PERM', 'APERM'): pos = x
            else: st += x.children()
        def one():
            fl.member(c)
            target = simp(fl.off(c) + j)
            w = inverse(pos, probe, target) if pos is not None else target
            if w is None: raise Unsupported('order of the peaks')
            ctx.oblige(L + ': every peak of every width is returned, with the parameters of its trial', z3.And(0 <= w, w < n, v(w) == fl.elem(c, j)), 'post')
        within(E, [0 <= c, c < fl.N, 0 <= j, j < fl.count(c)], one)
    def frame(s, E, a): return [('the periods', s.P), ('the widths', s.W), ('the bins', s.B), ('the S/N', s.S)]
