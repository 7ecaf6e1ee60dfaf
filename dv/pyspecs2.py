"""Contracts of the search and pipeline functions."""
import z3
from dv.core import *
from dv.machine import *
from dv.pyval import *
from dv import pyx, pylib
from dv.pyx import Py, Env, FA, InvSpec, load
from dv import spec_cxx as SC
from dv.pyspecs import *
from dv.pyspecs import spec, PySpec, Wrapper, bad, eq, arr_post, unchanged, known, within, nat, real, sarr, mk_ts, mk_metadata, ts_post, ts_unchanged

def locals_(E, pred):
    """local variables (name, value) that satisfy pred, innermost scope first"""
    out = []; e = E.env
    while e is not None:
        for k, c in e.vars.items():
            if not k.startswith('<') and isinstance(c, int) and c in E.cells and pred(E.cells[c]): out.append((k, E.cells[c]))
        e = e.parent
    return out

# ------------------------------------------------------------------ C20
IS = z3.IntSort(); RS = z3.RealSort()
widthW = z3.Function('width_trial', RS, IS, IS)                  # (wtsp, k)
widthN = z3.Function('width_trials', IS, RS, RS, IS)             # (bins, ducy_max, wtsp)
def width_next(wtsp, w):
    t = ffloor(wtsp * R(w))
    return z3.If(t > w + 1, t, w + 1)
def width_max(bins, ducy):
    x = R(ducy) * R(bins); return z3.If(x > 1, ffloor(x), I(1))
@spec
class WidthTrials(PySpec):
    key = 'riptide.ffautils.generate_width_trials'
    cases = ['given', 'defaults']
    def setup(s, E, case):
        s.b = nat(E, 'nbins', 1)
        if case == 'defaults': s.d, s.ws = R(0.2), R(1.5); kw = {}
        else: s.d, s.ws = real(E, 'ducy_max', 0), real(E, 'wtsp', 0); kw = {'ducy_max': s.d, 'wtsp': s.ws}
        s.W = lambda k: widthW(s.ws, I(k))
        E.ctx.assume(s.W(0) == 1)
        s.wmax = width_max(s.b, s.d)
        return [s.b], kw
    def invs(s, E):
        def pick(E):
            l = locals_(E, lambda v: isinstance(v, LST)); w = [x for k, x in locals_(E, lambda v: z3.is_expr(v) and z3.is_int(v)) if k == s.wname]
            if len(l) != 1 or len(w) != 1: raise Unsupported('unexpected variables in the loop of generate_width_trials')
            return l[0][1], w[0]
        def match(E, node):
            if not E.env.func or E.env.func.qual.split('.')[-1] != 'generate_width_trials': return False
            c = locals_(E, lambda v: z3.is_expr(v) and z3.is_int(v) and cval(v) == 1)
            l = locals_(E, lambda v: isinstance(v, LST))
            if len(c) != 1 or len(l) != 1: return False
            s.wname = c[0][0]; return True
        def inv(E, k):
            l, w = pick(E); n = l.n
            return [('the next width', w == s.W(n)), ('widths are positive', z3.And(w >= 1, n >= 0)),
                    ('widths so far', z3.BoolVal(True) if cval(n) == 0 else FA(1, lambda u: (z3.And(0 <= u, u < n), z3.And(l.at(u) == s.W(u), s.W(u) <= s.wmax, s.W(u) >= 1))))]
        def facts(E):
            l, w = pick(E); n = l.n
            E.ctx.assume(s.W(n + 1) == width_next(s.ws, s.W(n)))
        def shape(E, v):
            f = E.ctx.freshfn('hl', ['Int'], 'Int'); n = E.ctx.fresh('hln'); E.ctx.assume(n >= 0)
            return LST(v.oid, n, lambda i: f(I(i)))
        class Sh(dict):
            def items(self_):
                return [(k, shape) for k, v in locals_(E, lambda v: isinstance(v, LST))]
        return [InvSpec(match, inv, variant=lambda E: s.wmax + 1 - pick(E)[1], shapes=Sh(x=1), facts=facts, name='width loop')]
    def post(s, E, a, r, s0, case):
        r = E.thaw(r)
        if not isinstance(r, ND) or len(r.shape) != 1: return bad(E, s.label + ': one-dimensional array')
        n = r.shape[0]; rd_ = E.reader(r)
        E.ctx.oblige(s.label + ': integer widths', z3.BoolVal(E.dtype(r).startswith('int')), 'post')
        E.oblige(s.label + ': each width follows from the previous one and does not exceed the limit', FA(1, lambda u: (z3.And(0 <= u, u < n), z3.And(rd_(u) == s.W(u), s.W(u) <= s.wmax))))
        E.ctx.oblige(s.label + ': the next width would exceed the limit', s.W(n) > s.wmax, 'post')
    def effect(s, E, b):
        bins, d, ws = E.num(b['nbins']), R(E.num(b['ducy_max'])), R(E.num(b['wtsp']))
        if not z3.is_int(bins): raise Unsupported('number of bins')
        E.ctx.oblige('generate_width_trials: positive arguments', z3.And(bins >= 1, d > 0, ws > 0), 'pre')
        n = widthN(bins, d, ws); wm = width_max(bins, d)
        E.ctx.assume(z3.And(n >= 1, widthW(ws, I(0)) == 1, widthW(ws, n) > wm))
        E.assume_fact(FA(1, lambda u: (z3.And(0 <= u, u < n), z3.And(widthW(ws, u) >= 1, widthW(ws, u) <= wm)), [('width_trial', 1)]))
        return E.arr([n], lambda i: widthW(ws, I(i)), 'int64')

def compose(*ops):
    """(n, value, tsamp) of a series after the given operations"""
@spec
class FFASearch(PySpec):
    key = 'riptide.search.ffa_search'
    cases = ['all options', 'defaults', 'no dereddening', 'already normalised', 'neither']
    exc = 'ValueError'
    D = {'period_min': R(1), 'period_max': R(30), 'fpmin': I(8), 'bins_min': I(240), 'bins_max': I(260), 'ducy_max': R(0.2), 'wtsp': R(Fraction('1.5')), 'rmed_width': R(4), 'rmed_minpts': I(101)}
    def setup(s, E, case):
        s.ts = mk_ts(E); f = E.cells[s.ts.id].f
        s.f0 = f; s.x = f['_data']; s.n = s.x.shape[0]; s.tsamp = f['_tsamp']; s.md = f['metadata']; s.r = E.reader(s.x)
        s.calls = []
        def pg(args, kw):
            if kw or len(args) != 7: raise Unsupported('periodogram arguments')
            nt = E.ctx.fresh('ntrials'); E.ctx.assume(nt >= 0)
            w = E.thaw(args[2])
            nw = w.shape[0] if isinstance(w, ND) else E.seq(w).n
            res = (E.symarr('periods', [nt]), E.symarr('foldbins', [nt], 'Int', 'uint32'), E.symarr('snrs', [nt, nw], 'Real', 'float32'))
            x = E.thaw(args[0])
            s.calls.append((args, (E.reader(x), x.shape) if isinstance(x, ND) else None, (E.reader(w), w.shape) if isinstance(w, ND) else None, res))
            return res
        E.periodogram = pg
        v = dict(s.D)
        if case != 'defaults':
            v = {'period_min': real(E, 'period_min', 0), 'period_max': real(E, 'period_max', 0), 'fpmin': nat(E, 'fpmin', 1), 'bins_min': nat(E, 'bins_min', 2), 'bins_max': nat(E, 'bins_max', 2),
                 'ducy_max': real(E, 'ducy_max', 0), 'wtsp': real(E, 'wtsp', 0), 'rmed_width': real(E, 'rmed_width', 0), 'rmed_minpts': nat(E, 'rmed_minpts', 1)}
        s.v = v
        kw = {} if case == 'defaults' else dict(v)
        s.der = case not in ('no dereddening', 'neither'); s.nor = case not in ('already normalised', 'neither')
        if case in ('no dereddening', 'neither'): kw['deredden'] = False
        if case in ('already normalised', 'neither'): kw['already_normalised'] = True
        # expected series
        n, val = s.n, lambda i: R(s.r(I(i)))
        s.rs = None
        if s.der:
            ws = pylib.pyround(v['rmed_width'] / s.tsamp); mp = v['rmed_minpts']; sc = scrunch_factor(ws, mp)
            E.ctx.assume(z3.And(ws >= 1, sc <= n))
            i0 = sc == 1; f_ = fast_rmed(s.r, n, ws, mp, sc); v0 = val
            val = lambda i: v0(i) - z3.If(i0, R(pylib.rmed_val(s.r, n, ws, I(i))), f_(i))
            s.rs = fast_bad(n, ws, mp)
        if s.nor:
            v1 = val; s.vr = (v1, n)
            m, q = pylib.mean1(E, v1, n), pylib.var1(E, v1, n)
            val = lambda i: (v1(i) - m) / fsqrt(q)
        s.val = val
        return [s.ts], kw
    def raises(s, E, a, case): return s.rs
    def post(s, E, a, r, s0, case):
        ctx, L, v = E.ctx, s.label, s.v
        if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[1], ORef): return bad(E, L + ': returns the series and its periodogram')
        ts, pg = r
        md0 = s0[0][s.md.id].f['__dict__']
        ts_post(E, L + ': searched series', ts, s.n, s.val, s.tsamp, md0)
        if ctx.quick(z3.BoolVal(s.der or s.nor)) and isinstance(ts, ORef): ctx.oblige(L + ': a new series is returned', z3.BoolVal(ts.id != s.ts.id), 'post')
        ctx.oblige(L + ': searches exactly once', z3.BoolVal(len(s.calls) == 1), 'post')
        if len(s.calls) != 1: return
        args, xd, wd, res = s.calls[0]
        if xd is None: return bad(E, L + ': searches an array')
        ctx.oblige(L + ': number of samples searched', z3.BoolVal(len(xd[1]) == 1) if len(xd[1]) != 1 else xd[1][0] == s.n, 'post')
        u = ctx.fresh('i')
        within(E, [0 <= u, u < s.n], lambda: ctx.oblige(L + ': samples searched are those of the resulting series', R(E.num(xd[0](u))) == s.val(u), 'post'))
        eq(E, L + ': sampling time searched', args[1], s.tsamp)
        eq(E, L + ': period_min', args[3], v['period_min'])
        cap = R(s.n) * s.tsamp / R(v['fpmin'])
        eq(E, L + ': period_max is capped so that fpmin periods fit in the data', args[4], z3.If(cap < v['period_max'], cap, v['period_max']))
        eq(E, L + ': bins_min', args[5], v['bins_min']); eq(E, L + ': bins_max', args[6], v['bins_max'])
        nw = widthN(v['bins_min'], v['ducy_max'], v['wtsp'])
        if wd is None or len(wd[1]) != 1: return bad(E, L + ': width trials are an array')
        ctx.oblige(L + ': number of width trials', wd[1][0] == nw, 'post')
        within(E, [0 <= u, u < nw], lambda: ctx.oblige(L + ': width trials', R(E.num(wd[0](u))) == R(widthW(v['wtsp'], u)), 'post'))
        c = E.cells[pg.id]
        ctx.oblige(L + ': the second result is a periodogram', z3.BoolVal(c.tname == 'Periodogram'), 'post')
        for k, y in zip(('periods', 'foldbins', 'snrs'), res):
            g = c.f.get(k)
            ctx.oblige('%s: periodogram attribute %s is what the search returned' % (L, k), z3.BoolVal(isinstance(g, ND) and g.buf == y.buf and g.imap is None), 'post')
            if isinstance(g, ND) and g.buf == y.buf: ctx.oblige('%s: %s is not altered' % (L, k), z3.BoolVal(E.cells[g.buf].fn is not None and len(g.shape) == len(y.shape)), 'post')
        g = c.f.get('widths')
        if not isinstance(g, ND): bad(E, L + ': periodogram widths')
        else: arr_post(E, L + ': periodogram widths', g, [nw], lambda i: widthW(v['wtsp'], I(i)))
        m = c.f.get('metadata')
        if not isinstance(m, ORef) or '__dict__' not in E.cells[m.id].f: return bad(E, L + ': periodogram metadata')
        from dv.pyspecs import same_dict
        same_dict(E, L + ': periodogram metadata', E.cells[m.id].f['__dict__'], md0, {'tobs': simp(R(s.n) * s.tsamp)})
        ts_unchanged(E, L + ': the given series', s.ts, s0, s.x, s.f0, s.md)
    def post_throw(s, E, a, s0, case, label): ts_unchanged(E, label + ': the given series', s.ts, s0, s.x, s.f0, s.md)
    has_effect = False

# ------------------------------------------------------------------ peaks and clusters
bestpeak = z3.Function('PeakCluster.best', IS, IS)
npeaks = z3.Function('PeakCluster.npeaks', IS, IS)
peakat = z3.Function('PeakCluster.peak', IS, IS, IS)
parent0 = z3.Function('PeakCluster.parent', IS, IS)
PEAK = {'period': 'Real', 'freq': 'Real', 'width': 'Int', 'ducy': 'Real', 'iw': 'Int', 'ip': 'Int', 'snr': 'Real', 'dm': 'Real'}
def pk(attr, i): return z3.Function('Peak.' + attr, IS, SORT[PEAK[attr]])(i)
def cl_snr(c): return pk('snr', bestpeak(c))
def opq_clusters(E):
    """clusters are lists of at least one peak; identities are integers, -1 stands for None"""
    E.opq['Peak'] = dict(PEAK, __class__=('riptide.peak_detection', 'Peak'))
    none = lambda E, x, y: x.id == -1 if y is None else z3.BoolVal(False)
    E.opq['PeakCluster'] = {'__class__': ('riptide.pipeline.peak_cluster', 'PeakCluster'), '__eq__': none, 'parent_fundamental': lambda E, o: Opq('PeakCluster', parent0(o.id)),
                            '__truth__': lambda E, o: z3.BoolVal(True)}
    old = getattr(E, 'libhook', None)
    def hook(kind, v):
        if kind == 'seq' and isinstance(v, Opq) and v.cls == 'PeakCluster':
            n = npeaks(v.id); E.ctx.assume(n >= 1)
            return Seq(n, lambda i: Opq('Peak', peakat(v.id, I(i))))
        return old(kind, v) if old else None
    E.libhook = hook
def inverse(term, probe, target):
    """the value of probe for which term (an index built by filtering and sorting) equals target"""
    term = simp(term)
    if term.eq(probe): return simp(target)
    if not z3.is_app(term): return None
    nm = term.decl().name()
    kind = nm.split('@')[0]
    if kind in ('IOTA', 'PERM', 'APERM') and '@' in nm:
        _, fn, extra = ho_body(term)
        inv = hosym({'IOTA': 'CUM', 'PERM': 'PERMINV', 'APERM': 'APERMINV'}[kind], fn, list(extra[:-1]) + [simp(target)], IS)
        return inverse(extra[-1], probe, inv)
    if z3.is_add(term):
        ch = term.children(); k = [c for c in ch if occurs(c, [probe])]
        if len(k) == 1:
            rest = [c for c in ch if not c.eq(k[0])]
            return inverse(k[0], probe, target - sum(rest[1:], rest[0]))
    return None

@spec
class Centre(PySpec):
    key = 'riptide.pipeline.peak_cluster.PeakCluster.centre'
    def prepare(s, E): opq_clusters(E)
    def setup(s, E, case):
        s.c = E.ctx.fresh('cluster'); return [Opq('PeakCluster', s.c)], {}
    def post(s, E, a, r, s0, case):
        if not isinstance(r, Opq) or r.cls != 'Peak': return bad(E, s.label + ': returns a peak')
        ctx = E.ctx; n = npeaks(s.c)
        p = unique_bound()
        t = simp(r.id)
        j = t.arg(1) if z3.is_app(t) and t.decl().name() == 'PeakCluster.peak' else None
        if j is None: return bad(E, s.label + ': returns a member of the cluster')
        ctx.oblige(s.label + ': returns a member of the cluster', z3.And(t.arg(0) == s.c, 0 <= j, j < n), 'post')
        u = ctx.fresh('u')
        within(E, [0 <= u, u < n], lambda: ctx.oblige(s.label + ': no member has a higher S/N', pk('snr', peakat(s.c, u)) <= pk('snr', t), 'post'))
    def effect(s, E, b):
        o = b['self']
        if not isinstance(o, Opq): raise Unsupported('centre of %r' % (o,))
        return Opq('Peak', bestpeak(o.id))

def mk_pipeline(E, **f):
    cls = E.modval(load(E.repo, 'riptide.pipeline.pipeline'), 'Pipeline')
    return ORef(E.new(StructVal('Pipeline', {'__class__': cls, **f})))
def dct(d): return DCT(newoid(), d)

# ------------------------------------------------------------------ C15
@spec
class CandFilters(PySpec):
    key = 'riptide.pipeline.pipeline.Pipeline.apply_candidate_filters'
    cases = [' '.join(x for x, b in zip(('dm', 'snr', 'harmonics', 'max'), (i & 1, i & 2, i & 4, i & 8)) if b) or 'none' for i in range(16)] + ['harmonics unset']
    has_effect = False
    def prepare(s, E): opq_clusters(E)
    def setup(s, E, case):
        w = case.split()
        s.n = nat(E, 'nclusters', 0)
        s.dm = real(E, 'dm_min') if 'dm' in w else None
        s.snr = real(E, 'snr_min') if 'snr' in w else None
        s.h = None if case == 'harmonics unset' else 'harmonics' in w
        s.mx = nat(E, 'max_number', 1) if 'max' in w else None
        s.cl = LST(newoid(), s.n, lambda i: Opq('PeakCluster', I(i)))
        s.p = mk_pipeline(E, config=dct({'candidate_filters': dct({'dm_min': s.dm, 'snr_min': s.snr, 'remove_harmonics': s.h, 'max_number': s.mx})}), clusters=s.cl, clusters_filtered=LST.of([]))
        return [s.p], {}
    def ok(s, u):
        c = [z3.BoolVal(True)]
        if s.dm is not None: c.append(pk('dm', bestpeak(u)) >= s.dm)
        if s.snr is not None: c.append(cl_snr(u) >= s.snr)
        if s.h: c.append(parent0(u) == -1)
        return z3.And(*c)
    def post(s, E, a, r, s0, case):
        ctx, L = E.ctx, s.label
        f = E.cells[s.p.id].f
        g = f.get('clusters_filtered')
        ctx.oblige(L + ': the clusters themselves are kept', z3.BoolVal(f.get('clusters') is s.cl or same(f.get('clusters'), s.cl)), 'frame')
        if not isinstance(g, LST): return bad(E, L + ': the filtered clusters are a list')
        m = g.n
        def idx(p):
            e = g.at(p, ctx)
            return e.id if isinstance(e, Opq) and e.cls == 'PeakCluster' else None
        p, q, u = ctx.fresh('p'), ctx.fresh('q'), ctx.fresh('u')
        if ctx.quick(m == 0) : pass
        else:
            if within(E, [0 <= p, p < m], lambda: idx(p)) is None: return bad(E, L + ': the filtered clusters are clusters')
            within(E, [0 <= p, p < m], lambda: ctx.oblige(L + ': every retained cluster is one of the clusters', z3.And(0 <= idx(p), idx(p) < s.n), 'post'))
            within(E, [0 <= p, p < m], lambda: ctx.oblige(L + ': every retained cluster passes the filters', s.ok(idx(p)), 'post'))
            within(E, [0 <= p, p < m, 0 <= q, q < m, p < q], lambda: ctx.oblige(L + ': no cluster is retained twice', idx(p) != idx(q), 'post'))
        if s.mx is not None: ctx.oblige(L + ': at most the maximum number is retained', m <= s.mx, 'post')
        probe = unique_bound()
        pos = inverse(idx(probe), probe, u) if cval(m) != 0 else I(0)
        if pos is None: raise Unsupported('list of retained clusters built in an unexpected way')
        isin = z3.And(0 <= pos, pos < m, idx(pos) == u) if cval(m) != 0 else z3.BoolVal(False)
        def go():
            if s.mx is None: return ctx.oblige(L + ': every cluster that passes the filters is retained', isin, 'post')
            ctx.oblige(L + ': a cluster that passes the filters is left out only when the maximum is reached', z3.Or(isin, m == s.mx), 'post')
            within(E, [0 <= q, q < m], lambda: ctx.oblige(L + ': a cluster that is left out is not brighter than any retained one', z3.Or(isin, cl_snr(idx(q)) >= cl_snr(u)), 'post'))
        within(E, [0 <= u, u < s.n, s.ok(u)], go)

rg_pmin = z3.Function('range.period_min', IS, RS); rg_pmax = z3.Function('range.period_max', IS, RS)
rg_bmin = z3.Function('range.bins_min', IS, IS); rg_bmax = z3.Function('range.bins_max', IS, IS)
rg_cbins = z3.Function('range.candidate_bins', IS, IS); rg_csub = z3.Function('range.candidate_subints', IS, IS)
def search_range(i):
    i = I(i)
    return dct({'name': Opq('rangename', i), 'ffa_search': dct({'period_min': rg_pmin(i), 'period_max': rg_pmax(i), 'bins_min': rg_bmin(i), 'bins_max': rg_bmax(i)}),
                'find_peaks': Opq('rangepeaks', i), 'candidates': dct({'bins': rg_cbins(i), 'subints': rg_csub(i)})})
def deep_eq(E, name, a, b):
    if isinstance(b, DCT):
        if not isinstance(a, DCT): return bad(E, name + ' are a dictionary')
        E.ctx.oblige(name + ': keys', z3.BoolVal(set(a.ent) == set(b.ent) and same(a.rest, b.rest)), 'post')
        for k in b.ent:
            if k in a.ent: deep_eq(E, '%s[%r]' % (name, k), a.ent[k], b.ent[k])
    elif isinstance(b, Opq): E.ctx.oblige(name, a.id == b.id if isinstance(a, Opq) and a.cls == b.cls else z3.BoolVal(False), 'post')
    else: eq(E, name, a, b)
def mk_ranges(E):
    n = nat(E, 'nranges', 1)
    return LST(newoid(), n, search_range), n
@spec
class GetSearchRange(PySpec):
    key = 'riptide.pipeline.pipeline.Pipeline.get_search_range'
    has_effect = False
    def setup(s, E, case):
        l, n = mk_ranges(E); s.n = n
        succ = E.ctx.freshfn('next_range', ['Int'], 'Int')
        for t in ('range.period_min', 'range.period_max'): E.assume_fact(FA(1, lambda u: (z3.And(0 <= u, u < n), z3.And(rg_pmin(u) < rg_pmax(u), rg_pmin(u) > 0)), [(t, 0)]))
        E.assume_fact(FA(2, lambda u, v: (z3.And(0 <= u, u < n, 0 <= v, v < n, rg_pmin(u) < rg_pmin(v)), z3.And(rg_pmax(u) <= rg_pmin(v), 0 <= succ(u), succ(u) < n, rg_pmin(succ(u)) == rg_pmax(u))), [('range.period_min', 0)] * 2))
        E.assume_fact(FA(2, lambda u, v: (z3.And(0 <= u, u < n, 0 <= v, v < n, rg_pmin(u) == rg_pmin(v)), u == v), [('range.period_min', 0)] * 2))
        s.p = mk_pipeline(E, config=dct({'ranges': l}))
        s.x = real(E, 'period')
        # among finitely many ranges that start at or below the period, one starts last
        x = s.x; m = E.ctx.fresh('last_start')
        E.ctx.assume(z3.And(0 <= m, m < n, rg_pmin(m) < rg_pmax(m)))
        E.assume_fact(FA(1, lambda u: (z3.And(0 <= u, u < n, rg_pmin(u) <= x), z3.And(rg_pmin(m) <= x, rg_pmin(u) <= rg_pmin(m))), [('range.period_min', 0)]))
        return [s.p, s.x], {}
    def post(s, E, a, r, s0, case):
        ctx, L = E.ctx, s.label
        if not isinstance(r, DCT): return bad(E, L + ': returns a search range')
        nm = r.ent.get('name')
        if not isinstance(nm, Opq) or nm.cls != 'rangename': return bad(E, L + ': returns one of the search ranges')
        i = nm.id; n, x = s.n, s.x
        ctx.oblige(L + ': returns one of the search ranges', z3.And(0 <= i, i < n), 'post')
        deep_eq(E, L + ': returns the parameters of that range', r, search_range(i))
        u = ctx.fresh('u')
        within(E, [rg_pmin(i) > x, 0 <= u, u < n], lambda: ctx.oblige(L + ': below all ranges, the lowest range is returned', z3.And(x < rg_pmin(u), rg_pmin(i) <= rg_pmin(u)), 'post'))
        within(E, [rg_pmax(i) <= x, 0 <= u, u < n], lambda: ctx.oblige(L + ': above all ranges, the highest range is returned', z3.And(x >= rg_pmax(u), rg_pmax(i) >= rg_pmax(u)), 'post'))

SUMMARY = ('period', 'freq', 'dm', 'width', 'ducy', 'snr')
def peak_summary(p): return dct({a: pk(a, p) for a in SUMMARY})
@spec
class PeakSummary(PySpec):
    key = 'riptide.peak_detection.Peak.summary_dict'
    def prepare(s, E): opq_clusters(E)
    def setup(s, E, case):
        s.p = E.ctx.fresh('peak'); return [Opq('Peak', s.p)], {}
    def post(s, E, a, r, s0, case): deep_eq(E, s.label + ': summary of the peak', r, peak_summary(s.p))
    def effect(s, E, b):
        if not isinstance(b['self'], Opq): raise Unsupported('summary of %r' % (b['self'],))
        return peak_summary(b['self'].id)
cl_rank0 = z3.Function('PeakCluster.rank', IS, IS); cl_hp = z3.Function('PeakCluster.hfrac_num', IS, IS); cl_hq = z3.Function('PeakCluster.hfrac_den', IS, IS)
@spec
class ClusterSummary(PySpec):
    key = 'riptide.pipeline.peak_cluster.PeakCluster.summary_dict'
    has_effect = False
    def prepare(s, E):
        opq_clusters(E)
        E.opq['PeakCluster'].update(rank='Int', hfrac=lambda E, o: LibObj('fractions.Fraction', [cl_hp(o.id), cl_hq(o.id)]))
    def setup(s, E, case):
        s.c = E.ctx.fresh('cluster'); E.ctx.assume(s.c >= 0); return [Opq('PeakCluster', s.c)], {}
    def post(s, E, a, r, s0, case):
        c = s.c; h = parent0(c) != -1; rank = cl_rank0
        want = dct({**peak_summary(bestpeak(c)).ent, 'npeaks': npeaks(c), 'rank': rank(c), 'hfrac_num': z3.If(h, cl_hp(c), I(0)), 'hfrac_denom': z3.If(h, cl_hq(c), I(0)), 'fundamental_rank': z3.If(h, rank(parent0(c)), rank(c))})
        deep_eq(E, s.label + ': summary of the cluster', r, want)

# ------------------------------------------------------------------ C14
def ht_value(F, H, tobs, fmin, fmax, dmax, pdm, ddm, sdm, attr):
    """(related, numerator, denominator) of the harmonic test of candidates F and H, whose parameters are attr(name, candidate)"""
    ff, fh = attr('freq', F), attr('freq', H); up = ff <= fh
    x = z3.If(up, fh, ff) / z3.If(up, ff, fh)
    p, q = pylib.ldn(simp(x), I(dmax)), pylib.ldd(simp(x), I(dmax))
    slow, fast, fd = z3.If(up, ff, fh), z3.If(up, fh, ff), z3.If(up, attr('ducy', H), attr('ducy', F))
    ab = lambda v: z3.If(v >= 0, v, -v)
    pd = ab(toreal(p) / toreal(q) * slow - fast) * tobs / fd
    wf, wh = attr('ducy', F) / ff, attr('ducy', H) / fh
    dd = ab(attr('dm', F) - attr('dm', H)) * R(4150) * ab(1 / (fmin * fmin) - 1 / (fmax * fmax)) / z3.If(wf <= wh, wf, wh)
    sd = ab(attr('snr', H) - attr('snr', F) / fsqrt(toreal(p * q)))
    return z3.And(pd <= pdm, dd <= ddm, sd <= sdm), z3.If(up, p, q), z3.If(up, q, p)
HT = {k: z3.Function('htest.' + k, IS, IS, RS, RS, RS, IS, RS, RS, RS, {'related': z3.BoolSort(), 'num': IS, 'den': IS}[k]) for k in ('related', 'num', 'den')}
HTD = {'denom_max': I(100), 'phase_distance_max': R(1), 'dm_distance_max': R(3), 'snr_distance_max': R(3)}
@spec
class HTest(PySpec):
    key = 'riptide.pipeline.harmonic_testing.htest'
    cases = ['all options', 'defaults']
    exc = 'ValueError'
    def prepare(s, E):
        E.opq['Cand'] = {k: 'Real' for k in ('freq', 'ducy', 'dm', 'snr')}
        E.opq['Cand']['__eq__'] = lambda E, x, y: x.id == y.id if isinstance(y, Opq) else z3.BoolVal(False)
    def setup(s, E, case):
        s.F, s.H = I(0), I(1)
        at = s.at = lambda a, i: z3.Function('Cand.' + a, IS, RS)(i)
        for i in (s.F, s.H): E.ctx.assume(z3.And(at('freq', i) > 0, at('ducy', i) > 0))
        s.t, s.lo, s.hi = real(E, 'tobs'), real(E, 'fmin', 0), real(E, 'fmax', 0)
        s.o = dict(HTD)
        if case != 'defaults': s.o = {'denom_max': nat(E, 'denom_max', 1), 'phase_distance_max': real(E, 'pdm'), 'dm_distance_max': real(E, 'ddm'), 'snr_distance_max': real(E, 'sdm')}
        return [Opq('Cand', s.F), Opq('Cand', s.H), s.t, s.lo, s.hi], ({} if case == 'defaults' else dict(s.o))
    def raises(s, E, a, case): return z3.Or(s.hi <= s.lo, s.t <= 0)
    def post(s, E, a, r, s0, case):
        if not isinstance(r, tuple) or len(r) != 2: return bad(E, s.label + ': returns a pair')
        o = s.o
        rel, p, q = ht_value(s.F, s.H, s.t, s.lo, s.hi, o['denom_max'], o['phase_distance_max'], o['dm_distance_max'], o['snr_distance_max'], s.at)
        b = r[0] if z3.is_expr(r[0]) else z3.BoolVal(bool(r[0]))
        E.ctx.oblige(s.label + ': related exactly when the three distances are within their limits', b == rel, 'post')
        if not pylib.isfrac(r[1]): return bad(E, s.label + ': returns a fraction')
        E.ctx.oblige(s.label + ': the fraction is that of the second frequency over the first', z3.And(r[1].args[0] == p, r[1].args[1] == q), 'post')
    def effect(s, E, b):
        F, H = b['F'], b['H']
        if not (isinstance(F, Opq) and isinstance(H, Opq) and F.cls == H.cls == 'Peak'): raise Unsupported('harmonic test of %r' % (F,))
        t, lo, hi = (R(E.num(b[k])) for k in ('tobs', 'fmin', 'fmax'))
        E.ctx.oblige('htest: valid band and observation length', z3.And(hi > lo, t > 0), 'pre')
        dm = E.num(b['denom_max'])
        a = [F.id, H.id, t, lo, hi, dm] + [R(E.num(b[k])) for k in ('phase_distance_max', 'dm_distance_max', 'snr_distance_max')]
        return HT['related'](*a), LibObj('fractions.Fraction', [HT['num'](*a), HT['den'](*a)])

def cl_attrs(E):
    """mutable attributes of clusters: parent (identity, -1 for None), rank, harmonic fraction"""
    E.attrs = {('PeakCluster', 'parent_fundamental'): E.new(AMap(lambda i: Opq('PeakCluster', parent0(i)))), ('PeakCluster', 'rank'): E.new(AMap(lambda i: cl_rank0(i))),
               ('PeakCluster', 'hfrac'): E.new(AMap(lambda i: LibObj('fractions.Fraction', [cl_hp(i), cl_hq(i)])))}
def cl_attr(E, a, i):
    v = E.cells[E.attrs[('PeakCluster', a)]].fn(I(i))
    if a == 'parent_fundamental':
        if not (isinstance(v, Opq) and v.cls == 'PeakCluster'): raise Unsupported('parent of a cluster is %r' % (v,))
        return v.id
    return v
def dmiter_obj(E, **f):
    """DM iterator: band limits and median observation length"""
    E.opq['DMIter'] = {k: (lambda E, o, v=v: v) for k, v in f.items() if not callable(v)}
    for k, v in f.items():
        if callable(v): E.opq_methods[('DMIter', k)] = v
    return Opq('DMIter', I(0))
@spec
class FlagHarmonics(PySpec):
    key = 'riptide.pipeline.pipeline.Pipeline.flag_harmonics'
    has_effect = False
    def prepare(s, E): opq_clusters(E)
    def setup(s, E, case):
        s.n = nat(E, 'nclusters', 0)
        cl_attrs(E)
        s.t, s.lo, s.hi = real(E, 'tobs', 0), real(E, 'fmin', 0), real(E, 'fmax', 0); E.ctx.assume(s.lo < s.hi)
        s.o = {'denom_max': nat(E, 'denom_max', 1), 'phase_distance_max': real(E, 'pdm', 0), 'dm_distance_max': real(E, 'ddm', 0), 'snr_distance_max': real(E, 'sdm', 0)}
        dm = dmiter_obj(E, fmin=s.lo, fmax=s.hi, tobs_median=lambda E, o, a, k: s.t)
        E.assume_fact(FA(1, lambda u: (z3.And(0 <= u, u < s.n), parent0(u) == -1), [('PeakCluster.parent', 0)]))
        s.cl = LST(newoid(), s.n, lambda i: Opq('PeakCluster', I(i)))
        s.p = mk_pipeline(E, config=dct({'harmonic_flagging': dct(s.o)}), clusters=s.cl, dmiter=dm)
        return [s.p], {}
    def test(s, what, F, H): return HT[what](bestpeak(F), bestpeak(H), s.t, s.lo, s.hi, *[s.o[k] for k in ('denom_max', 'phase_distance_max', 'dm_distance_max', 'snr_distance_max')])
    def invs(s, E):
        n = lambda: s.n
        ca = z3.Function('comb_a', IS, IS, IS); cb = z3.Function('comb_b', IS, IS, IS); ix = z3.Function('comb_ix', IS, IS, IS, IS)
        def order(term, probe):
            """position -> cluster, cluster -> position"""
            term = simp(term)
            S = lambda q: z3.substitute(term, (probe, simp(I(q))))
            def pos(u):
                v = inverse(term, probe, I(u))
                if v is None: raise Unsupported('order of the clusters in the loop')
                return v
            return S, pos
        def elem(E):
            sq = E.loopseq
            if sq is None: return None
            q = unique_bound(); e = sq.fn(q)
            return (q, e) if isinstance(e, tuple) and len(e) == 2 else None
        def is_rank(E, node):
            r = elem(E)
            if not r or not z3.is_expr(r[1][0]) or not isinstance(r[1][1], Opq) or r[1][1].cls != 'PeakCluster': return False
            s.S1, s.P1 = order(r[1][1].id, r[0]); return True
        def rank_inv(E, k):
            return [('clusters visited so far have their position as rank', z3.BoolVal(True) if cval(k) == 0 else FA(1, lambda u: (z3.And(0 <= u, u < s.n, s.P1(u) < k), R(E.num(cl_attr(E, 'rank', u))) == R(s.P1(u)))))]
        def is_pair(E, node):
            r = elem(E)
            if not r or not all(isinstance(x, Opq) and x.cls == 'PeakCluster' for x in r[1]): return False
            q, (a, b) = r; pr = unique_bound()
            ta = z3.substitute(simp(a.id), (ca(s.n, q), pr)); tb = z3.substitute(simp(b.id), (cb(s.n, q), pr))
            if not ta.eq(tb) or occurs(ta, [q]): return False
            s.S2, s.P2 = order(ta, pr); return True
        def flagged(E, u):
            p = cl_attr(E, 'parent_fundamental', u); f = cl_attr(E, 'hfrac', u)
            if not pylib.isfrac(f): raise Unsupported('harmonic fraction')
            return p, z3.And(0 <= p, p < s.n, s.P2(p) < s.P2(u), cl_attr(E, 'parent_fundamental', p) == -1, s.test('related', p, u), f.args[0] == s.test('num', p, u), f.args[1] == s.test('den', p, u))
        s.flagged = flagged
        def pair_inv(E, k):
            par = lambda u: cl_attr(E, 'parent_fundamental', u)
            def a(u):
                p, g = flagged(E, u)
                return z3.And(0 <= u, u < s.n, p != -1), z3.And(g, ix(s.n, s.P2(p), s.P2(u)) < k)
            def b(u, v): return z3.And(0 <= u, u < s.n, 0 <= v, v < s.n, s.P2(u) < s.P2(v), ix(s.n, s.P2(u), s.P2(v)) < k, par(u) == -1, par(v) == -1), z3.Not(s.test('related', u, v))
            if cval(k) == 0: return [('no cluster is flagged at first', FA(1, lambda u: (z3.And(0 <= u, u < s.n), par(u) == -1)))]
            t = simp(par(unique_bound())).decl().name()
            return [('flagged clusters have passed the test with a cluster that is not flagged', FA(1, a, [(t, 0)])), ('pairs of unflagged clusters visited so far fail the test', FA(2, b, [(t, 0), (t, 0)]))]
        return [InvSpec(is_rank, rank_inv, name='rank loop'), InvSpec(is_pair, pair_inv, name='pair loop')]
    def post(s, E, a, r, s0, case):
        ctx, L = E.ctx, s.label
        f = E.cells[s.p.id].f
        ctx.oblige(L + ': the clusters themselves are kept', z3.BoolVal(f.get('clusters') is s.cl or same(f.get('clusters'), s.cl)), 'frame')
        rank = lambda u: R(E.num(cl_attr(E, 'rank', u)))
        par = lambda u: cl_attr(E, 'parent_fundamental', u)
        u, v = ctx.fresh('u'), ctx.fresh('v')
        def one():
            ctx.oblige(L + ': ranks are 0 .. n-1', z3.And(rank(u) >= 0, rank(u) < R(s.n)), 'post')
            p = par(u)
            fr = cl_attr(E, 'hfrac', u)
            within(E, [p != -1], lambda: ctx.oblige(L + ': a flagged cluster points to an unflagged fundamental of lower rank and no lower S/N that passed the test with it',
                   z3.And(0 <= p, p < s.n, par(p) == -1, rank(p) < rank(u), cl_snr(p) >= cl_snr(u), s.test('related', p, u)), 'post'))
            if pylib.isfrac(fr): within(E, [p != -1], lambda: ctx.oblige(L + ': a flagged cluster has the fraction found by the test', z3.And(fr.args[0] == s.test('num', p, u), fr.args[1] == s.test('den', p, u)), 'post'))
            else: bad(E, L + ': a flagged cluster has the fraction found by the test')
        within(E, [0 <= u, u < s.n], one)
        def two():
            ctx.oblige(L + ': ranks are distinct', rank(u) != rank(v), 'post')
            within(E, [rank(u) < rank(v)], lambda: ctx.oblige(L + ': ranks follow decreasing S/N', cl_snr(u) >= cl_snr(v), 'post'))
            within(E, [rank(u) < rank(v), par(u) == -1, par(v) == -1], lambda: ctx.oblige(L + ': two unflagged clusters are not related', z3.Not(s.test('related', u, v)), 'post'))
        within(E, [0 <= u, u < s.n, 0 <= v, v < s.n, u != v], two)

# ------------------------------------------------------------------ C13
def cut(E, name, hyps, goal, abstract=()):
    """hyps => goal, proved from the hypotheses alone with the listed terms taken as arbitrary numbers, then available as a fact"""
    ctx = E.ctx; st = list(ctx.pc) + list(ctx.defs); known = set()
    while st:
        h = st.pop(); known.add(h.get_id()); known.add(simp(h).get_id())
        if z3.is_and(h): st += h.children()
    rest = [h for h in hyps if not any(h is d for d in ctx.defs) and h.get_id() not in known and simp(h).get_id() not in known]
    f = z3.Implies(z3.And(*rest), goal) if rest else goal
    sub = [(t, ctx.fresh('cut', t.sort().name())) for t in abstract]; sub += [(simp(t), c) for t, c in sub]
    sv = ctx.pc, ctx.pck, ctx.foralls, ctx.defs
    ctx.pc, ctx.pck, ctx.foralls, ctx.defs = [], [], [], []
    try:
        for h in hyps: ctx.assume(z3.substitute(h, *sub))
        ctx.oblige(name, z3.substitute(goal, *sub), 'lemma')
    finally: ctx.pc, ctx.pck, ctx.foralls, ctx.defs = sv
    ctx.assume(f)
@spec
class SelectDMs(PySpec):
    key = 'riptide.pipeline.dmiter.select_dms'
    exc = 'ValueError'
    def setup(s, E, case):
        s.N = nat(E, 'ntrials', 0)
        s.x = sarr(E, 'dms', [s.N]); r = E.reader(s.x); s.r = lambda u: R(r(I(u)))
        # the trials are distinct: instances of this assumption are added where they are needed
        s.distinct = lambda u, v: E.ctx.assume(z3.Implies(z3.And(0 <= u, u < s.N, 0 <= v, v < s.N, s.r(u) == s.r(v)), u == v))
        s.lo, s.hi, s.f0, s.f1, s.w = real(E, 'dm_start'), real(E, 'dm_end'), real(E, 'fmin', 0), real(E, 'fmax', 0), real(E, 'wmin', 0)
        s.nc = nat(E, 'nchans', 1); E.ctx.assume(z3.And(0 < s.f0, s.f0 < s.f1))
        E.name_reals = [s.f0, s.f1, s.nc]
        kdm = E.modval(load(E.repo, 'riptide.pipeline.dmiter'), 'KDM')
        p2 = lambda v: pylib.fpow(v, I(-2))
        kd = R(E.num(kdm)) * (p2(s.f0) - p2(s.f1)); cw = (s.f1 - s.f0) / toreal(s.nc); mid = (s.f1 + s.f0) / 2
        cw = E.named(cw); q0, q1 = mid - cw / 2, mid + cw / 2
        ks, kd = E.named(R(E.num(kdm)) * (p2(q0) - p2(q1))), E.named(kd)
        ik = E.named(kd, True)
        P, Q, K, x, y = s.f0 * s.f0, s.f1 * s.f1, R(E.num(kdm)), p2(s.f0), p2(s.f1)
        cut(E, 'select_dms: lemma: the squares of the band edges', [0 < s.f0, s.f0 < s.f1], z3.And(0 < P, P < Q))
        cut(E, 'select_dms: lemma: the inverse squares of the band edges', [0 < P, P < Q], x > y, [P, Q])
        cut(E, 'select_dms: lemma: the delay across the band is positive', [x > y] + E.ctx.defs, kd > 0, [x, y])
        cut(E, 'select_dms: lemma: and so is its inverse', [kd > 0] + E.ctx.defs, ik > 0, [x, y])
        cut(E, 'select_dms: lemma: the central channel lies in the band', [0 < s.f0, s.f0 < s.f1, s.nc >= 1] + [d for d in E.ctx.defs if z3.is_eq(d) and d.arg(0).eq(cw)], z3.And(cw > 0, q0 > 0, q1 > 0))
        cut(E, 'select_dms: lemma: squares of the edges of the central channel', [q0 > 0, q1 > 0], z3.And(q0 * q0 > 0, q1 * q1 > 0))
        s.J = s.nh = None
        s.inr = lambda u: z3.And(s.r(u) >= s.lo, s.r(u) <= s.hi)
        a = E.arr([s.N], lambda i: s.r(i)); mk = E.arr([s.N], lambda i: simp(s.inr(I(i))), 'bool')
        srt = pylib.call(E, 'numpy.sort', [pylib.nd_get(E, a, mk)], {})
        s.m = srt.shape[0]; rd = E.reader(srt); s.D = lambda i: R(rd(simp(I(i))))
        s.rad = lambda d: z3.If(ks * d > s.w, ks * d, s.w) * ik
        gap = lambda a, b: (b - s.rad(b)) - (a + s.rad(a))
        # GAP(i, j): the gap left between the i-th and the j-th trial of the range
        g = E.ctx.freshfn('gap', ['Int', 'Int'], 'Real'); s.gn = g(I(0), I(0)).decl().name()
        s.GAP = lambda i, j: g(simp(I(i)), simp(I(j)))
        s.gapdef = lambda i, j: z3.Implies(z3.And(0 <= i, i < s.m, 0 <= j, j < s.m), s.GAP(i, j) == gap(s.D(i), s.D(j)))
        return [s.x, s.lo, s.hi, s.f0, s.f1, s.nc, s.w], {}
    def raises(s, E, a, case): return s.m == 0
    def lists(s, E): return locals_(E, lambda v: isinstance(v, LST))
    def invs(s, E):
        def match(E, node):
            if E.loopseq is not None: return False
            l = s.lists(E)
            if len(l) != 1 or cval(l[0][1].n) != 1: return False
            c = locals_(E, lambda v: z3.is_expr(v) and z3.is_int(v) and cval(v) == 0)
            if len(c) != 1: return False
            s.iname = c[0][0]
            # the loop only needs the trials as a sequence: fewer facts for the prover
            E.ctx.foralls = [f for f in E.ctx.foralls if not any(str(dc).startswith(q) for dc in f[0] for q in ('CUM@', 'IOTA@', 'APERM'))]
            return True
        def pick(E):
            l = s.lists(E); c = [v for k, v in locals_(E, lambda v: z3.is_expr(v) and z3.is_int(v)) if k == s.iname]
            if len(l) != 1 or len(c) != 1: raise Unsupported('unexpected variables in the loop of select_dms')
            l, i = l[0][1], c[0]
            J = (lambda p: i) if s.J is None else (lambda p: z3.If(p < s.nh, s.J(p), i))
            return l, i, J
        def inv(E, k):
            l, i, J = pick(E); n = l.n; D, m = s.D, s.m
            if not E.proving: s.i0 = i
            def step(p, a, b):
                return z3.And(a < b, z3.Or(s.GAP(a, b) <= 0, b == a + 1), z3.Or(z3.And(b + 1 < m, s.GAP(a, b + 1) > 0), b + 1 >= m, z3.And(b == a + 1, s.GAP(a, b) > 0)))
            last = lambda: z3.Implies(z3.And(s.gapdef(s.i0, i), s.gapdef(s.i0, i + 1)), step(n - 2, s.i0, i))
            t = [(s.Jn, 0)] if s.J is not None else None
            out = [('at least one trial is selected', n >= 1)]
            if cval(n) == 1: return out + [('the first selected trial is the smallest', z3.And(i == 0, 0 < m, R(E.num(l.at(I(0)))) == D(0)))]
            return out + [('current trial is the last one selected', J(n - 1) == i), ('the first selected trial is the smallest', J(I(0)) == 0),
                    ('selected trials are available', FA(1, lambda p: (z3.And(0 <= p, p < n), z3.And(0 <= J(p), J(p) < m, R(E.num(l.at(p))) == D(J(p)))), t)),
                    ] + ([('one more trial is selected', z3.And(n == s.nh + 1, J(n - 2) == s.i0)), ('the new step is as far as possible without leaving a gap', last()),
                          ('each earlier step is as far as possible without leaving a gap', FA(1, lambda p: (z3.And(0 <= p, p + 1 < n - 1), step(p, J(p), J(p + 1))), t))] if E.proving and s.J is not None
                         else [('each step is as far as possible without leaving a gap', FA(1, lambda p: (z3.And(0 <= p, p + 1 < n), step(p, J(p), J(p + 1))), t))])
        def shape(E, v):
            f = E.ctx.freshfn('sel', ['Int'], 'Int'); s.Jn = f(I(0)).decl().name(); s.J = lambda p: f(I(p)); s.nh = E.ctx.fresh('seln'); E.ctx.assume(s.nh >= 1)
            J = s.J
            return LST(v.oid, s.nh, lambda i: s.D(J(i)))
        class Sh(dict):
            def items(self_): return [(k, shape) for k, v in s.lists(E)]
        return [InvSpec(match, inv, variant=lambda E: s.m - pick(E)[1], shapes=Sh(x=1), name='selection loop')]
    def post(s, E, a, r, s0, case):
        ctx, L = E.ctx, s.label
        if isinstance(r, ND) and len(r.shape) == 1: n, rd = r.shape[0], E.reader(r)
        else: return bad(E, L + ': returns an array')
        v = lambda p: R(E.num(rd(simp(I(p)))))
        p, u, w = ctx.fresh('p'), ctx.fresh('u'), ctx.fresh('w')
        if s.J is None: return bad(E, L + ': the selection loop is recognised')
        # D(0) <= ... <= D(m-1) are the available trials within the range; J(p) is the rank of the p-th selected one
        D, J, m = s.D, s.J, s.m
        # what follows needs the facts of the loop only (fewer facts for the prover)
        fa = ctx.foralls
        ctx.foralls = [f for f in fa if not any(str(dc).startswith(q) for dc in f[0] for q in ('CUM@', 'IOTA@', 'APERM', s.gn))]
        ctx.oblige(L + ': at least one trial is selected', n >= 1, 'post')
        def one():
            ctx.oblige(L + ': every selected trial is one of the available trials of the range', z3.And(0 <= J(p), J(p) < m, v(p) == D(J(p))), 'post')
        within(E, [0 <= p, p < n], one)
        ctx.oblige(L + ': the selection begins with the smallest trial of the range', J(I(0)) == 0, 'post')
        ctx.oblige(L + ': the selection ends with the largest trial of the range', J(n - 1) == m - 1, 'post')
        def two():
            ctx.oblige(L + ': the selected trials increase strictly', J(p) < J(p + 1), 'post')
            ctx.oblige(L + ': a gap remains only between adjacent trials', z3.Or(J(p + 1) == J(p) + 1, s.GAP(J(p), J(p + 1)) <= 0), 'post')
            ctx.oblige(L + ': no selected trial can be replaced by the next one without leaving a gap', z3.Or(J(p + 1) + 1 >= m, s.GAP(J(p), J(p + 1) + 1) > 0, z3.And(J(p + 1) == J(p) + 1, s.GAP(J(p), J(p + 1)) > 0)), 'post')
        within(E, [0 <= p, p + 1 < n], two)
        ctx.foralls = fa
    def frame(s, E, a): return [('the trial DMs', s.x)]
    has_effect = False
