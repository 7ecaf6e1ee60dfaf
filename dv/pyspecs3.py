"""Contracts: search range validation (C16) and others."""
import z3
from dv.core import *
from dv.pyval import *
from dv.pyx import *
from dv import pylib
from dv.pyspecs import *
from dv.pyspecs2 import *
IS, RS = z3.IntSort(), z3.RealSort()

def exists(E, name, fn, trig=None):
    """a truth value that stands for 'there is a u with fn(u)'; fn(u) -> (range, condition)"""
    b = E.ctx.fresh(name, 'Bool'); w = E.ctx.fresh(name + '_at')
    h, c = fn(w); E.ctx.assume(z3.Implies(b, z3.And(h, c)))
    def f(u):
        h, c = fn(u); return z3.And(h, z3.Not(b)), z3.Not(c)
    E.assume_fact(FA(1, f, trig))
    return b
rg_fine = lambda u, ts: z3.Or(toreal(rg_bmin(u)) * ts > rg_pmin(u), toreal(rg_cbins(u)) * ts > rg_pmin(u))
@spec
class ValidateRange(PySpec):
    key = 'riptide.pipeline.config_validation.validate_range'
    exc = 'InvalidSearchRange'
    has_effect = False
    def setup(s, E, case):
        s.u = E.ctx.fresh('range'); s.ts = real(E, 'tsamp_max')
        return [search_range(s.u), s.ts], {}
    def raises(s, E, a, case): return rg_fine(s.u, s.ts)
@spec
class ValidateRangesContiguity(PySpec):
    key = 'riptide.pipeline.config_validation.validate_ranges_contiguity'
    exc = 'InvalidSearchRange'
    has_effect = False
    def setup(s, E, case):
        s.n = nat(E, 'nranges', 0)
        return [LST(newoid(), s.n, search_range)], {}
    def raises(s, E, a, case): return exists(E, 'gap', lambda u: (z3.And(0 <= u, u + 1 < s.n), rg_pmax(u) != rg_pmin(u + 1)), [('range.period_max', 0)])
@spec
class ValidateRanges(PySpec):
    key = 'riptide.pipeline.config_validation.validate_ranges'
    exc = 'InvalidSearchRange'
    has_effect = False
    def setup(s, E, case):
        s.n = nat(E, 'nranges', 0); s.ts = real(E, 'tsamp_max')
        return [LST(newoid(), s.n, search_range), s.ts], {}
    def raises(s, E, a, case):
        return z3.Or(exists(E, 'gap', lambda u: (z3.And(0 <= u, u + 1 < s.n), rg_pmax(u) != rg_pmin(u + 1)), [('range.period_max', 0)]),
                     exists(E, 'fine', lambda u: (z3.And(0 <= u, u < s.n), rg_fine(u, s.ts)), [('range.period_min', 0)]))

# ------------------------------------------------------------------ C21: lists put together from the results of a loop
class Flat:
    """concatenation of the lists L(0), ..., L(N-1): L(r) has count(r) elements elem(r, j) (identities of class cls).  off(r) is the
    number of elements before L(r); src(i) is the list that element i comes from"""
    def __init__(s, E, name, N, count, elem, cls='Peak'):
        s.E, s.N, s.count, s.elem, s.cls = E, N, count, elem, cls
        f, g = E.ctx.freshfn(name + '_off', ['Int'], 'Int'), E.ctx.freshfn(name + '_src', ['Int'], 'Int')
        s.off = lambda r: f(simp(I(r))); s.src = lambda i: g(simp(I(i))); s.gn = g(I(0)).decl().name()
        E.ctx.assume(s.off(0) == 0)
        s.hav = None
    def at(s, i): return s.elem(s.src(i), simp(I(i) - s.off(s.src(i))))
    def define(s, r):
        """definition of off and src at r"""
        E = s.E
        E.ctx.assume(z3.And(s.count(r) >= 0, s.off(r + 1) == s.off(r) + s.count(r)))
        E.assume_fact(FA(1, lambda i: (z3.And(s.off(r) <= i, i < s.off(r + 1)), s.src(i) == r), [(s.gn, 0)]))
    def member(s, r):
        """a list among the N ones lies within the concatenation (off does not decrease)"""
        s.define(r); s.E.ctx.assume(z3.Implies(z3.And(0 <= r, r < s.N), z3.And(0 <= s.off(r), s.off(r + 1) <= s.off(s.N))))
    def lists(s, E):
        out = []; e = E.env
        while e is not None:
            for k, c in e.vars.items():
                if (k == '<out>' or not k.startswith('<')) and isinstance(c, int) and c in E.cells and isinstance(E.cells[c], LST) and (cval(E.cells[c].n) == 0 or s.mine(E.cells[c])): out.append((k, E.cells[c]))
            e = e.parent
        return out
    def mine(s, l): return s.hav is not None and l.fn is s.hav
    def ident(s, l, i):
        v = l.at(i, s.E.ctx)
        return v.id if isinstance(v, Opq) and v.cls == s.cls else None
    def spec(s, match, name):
        def shape(E, v):
            f = E.ctx.freshfn('hfl', ['Int'], 'Int'); n = E.ctx.fresh('hfn'); E.ctx.assume(n >= 0); s.hn = f(I(0)).decl().name()
            s.hav = lambda i: Opq(s.cls, f(simp(I(i))))
            return LST(v.oid, n, s.hav)
        def m(E, node):
            if not match(E, node): return False
            s.hav = None
            l = s.lists(E)
            if not l: return False
            s.names = [k for k, v in l]; s.oids = [v.oid for k, v in l]
            return True
        def cur(E):
            """the list that the loop builds: the one that has changed"""
            out = []; e = E.env
            while e is not None:
                for k, c in e.vars.items():
                    if isinstance(c, int) and c in E.cells and isinstance(E.cells[c], LST) and E.cells[c].oid in s.oids and not any(x.oid == E.cells[c].oid for x in out): out.append(E.cells[c])
                e = e.parent
            ch = [l for l in out if not (l.concrete() and cval(l.n) == 0)]
            if len(ch) > 1: raise Unsupported('several lists are built in ' + name)
            return ch[0] if ch else None
        def inv(E, k):
            k = I(k)
            if not E.proving: s.define(k)
            l = cur(E)
            if l is None: return [('number of elements so far', s.off(k) == 0)]
            if s.ident(l, unique_bound()) is None: raise Unsupported('elements of the list built in ' + name)
            return [('number of elements so far', l.n == s.off(k)),
                    ('elements so far', FA(1, lambda i: (z3.And(0 <= i, i < l.n), s.ident(l, i) == s.at(i)), [(s.hn, 0)] if s.hav is not None and l.fn is s.hav and not l.tail else None))]
        class Sh(dict):
            def items(self_): return [(k, shape) for k in s.names]
        return InvSpec(m, inv, shapes=Sh(x=1), name=name)

def val_sig(E, v):
    """(kind, arguments) of a value given to an opaque function"""
    if v is None: return 'none', []
    if isinstance(v, str): return repr(v), []
    if isinstance(v, Opq): return v.cls, [v.id]
    if isinstance(v, bool): return str(v), []
    if isinstance(v, tuple) or isinstance(v, LST) and v.concrete():
        xs = [val_sig(E, x) for x in (v if isinstance(v, tuple) else v.items())]
        return '(%s)' % ','.join(k for k, a in xs), [y for k, a in xs for y in a]
    x = E.num(v)
    c = cval(simp(x)) if not z3.is_bool(x) else None
    if z3.is_bool(x):
        x = simp(x)
        if z3.is_true(x) or z3.is_false(x): return str(z3.is_true(x)), []
        return 'bool', [x]
    return 'num', [R(x)]
def opaque(E, name, b, sort=IS, extra=()):
    """value of an opaque function of its bound arguments b"""
    sig = []; args = []
    for k in sorted(b):
        t, a = val_sig(E, b[k]); sig.append('%s:%s' % (k, t)); args += a
    args += list(extra)
    return z3.Function('%s(%s)' % (name, ';'.join(sig)), *([a.sort() for a in args] + [sort]))(*args)
def opq_search(E):
    """TimeSeries, periodograms as opaque objects; the search functions as functions of their arguments"""
    opq_clusters(E)
    E.opq['TS'] = {'metadata': lambda E, o: dct({'dm': z3.Function('TS.dm', IS, RS)(o.id)}), 'length': lambda E, o: z3.Function('TS.length', IS, RS)(o.id)}
    def bindm(names, defaults):
        def f(args, kw):
            b = dict(zip(names, args))
            if len(args) > len(names): raise CThrow('TypeError')
            for k, v in kw.items():
                if k not in names or k in b: raise CThrow('TypeError', k)
                b[k] = v
            for k in names:
                if k not in b:
                    if k not in defaults: raise CThrow('TypeError', k)
                    b[k] = defaults[k]
            return b
        return f
    bd = bindm(['width', 'minpts'], {'minpts': I(101)}); bn = bindm([], {})
    E.opq_methods[('TS', 'deredden')] = lambda E, o, a, k: Opq('TS', opaque(E, 'deredden', dict(bd(a, k), self=o)))
    E.opq_methods[('TS', 'normalise')] = lambda E, o, a, k: Opq('TS', opaque(E, 'normalise', dict(bn(a, k), self=o)))
    E.opq_methods[('Loader', '__call__')] = lambda E, o, a, k: Opq('TS', opaque(E, 'load', {'fmt': o.args[0], 'fname': a[0]}))
    def search(E, b): return Opq('TS', opaque(E, 'searched', b)), Opq('Pgram', opaque(E, 'pgram', b))
    E.contracts['riptide.search.ffa_search'] = search
    E.contracts['riptide.peak_detection.find_peaks'] = lambda E, b: (found(E, b)[2], Opq('Polycos', opaque(E, 'polycos', b)))
def found(E, b):
    n = opaque(E, 'npeaks', b); E.ctx.assume(n >= 0)
    at = lambda j: opaque(E, 'peak', b, extra=[I(j)])
    return n, at, LST(newoid(), n, lambda j: Opq('Peak', at(j)))
FSD = {'period_min': R(1), 'period_max': R(30), 'fpmin': I(8), 'bins_min': I(240), 'bins_max': I(260), 'ducy_max': R(Fraction(0.2)), 'wtsp': R(Fraction('1.5')), 'deredden': True, 'rmed_width': R(4), 'rmed_minpts': I(101), 'already_normalised': False}
FPD = {'smin': R(6), 'segwidth': R(5), 'nstd': R(6), 'minseg': I(10), 'polydeg': I(2), 'clrad': R(Fraction(0.1))}
RF = {k: z3.Function('conf.ffa_search.' + k, IS, RS if srt == 'r' else IS) for k, srt in dict(period_min='r', period_max='r', bins_min='i', bins_max='i', ducy_max='r', wtsp='r', fpmin='i').items()}
RP = {k: z3.Function('conf.find_peaks.' + k, IS, RS if srt == 'r' else IS) for k, srt in dict(smin='r', segwidth='r', nstd='r', minseg='i', polydeg='i', clrad='r').items()}
def full_conf(i):
    i = I(i)
    return dct({'name': Opq('rangename', i), 'ffa_search': dct({k: f(i) for k, f in RF.items()}), 'find_peaks': dct({k: f(i) for k, f in RP.items()}), 'candidates': dct({'bins': rg_cbins(i), 'subints': rg_csub(i)})})
def in_func(E, *names):
    e = E.env
    while e is not None:
        if e.func is not None and e.func.qual.split('.')[-1] in names: return True
        e = e.parent
    return False
def mk_obj(E, mod, cls, **f):
    c = E.modval(load(E.repo, mod), cls)
    return ORef(E.new(StructVal(cls, {'__class__': c, **f})))
@spec
class ProcessFname(PySpec):
    key = 'riptide.pipeline.worker_pool.WorkerPool.process_fname'
    has_effect = False
    def prepare(s, E): opq_search(E)
    def setup(s, E, case):
        s.n = nat(E, 'nranges', 1)
        s.w, s.m = real(E, 'rmed_width', 0), nat(E, 'rmed_minpts', 1)
        s.wp = mk_obj(E, 'riptide.pipeline.worker_pool', 'WorkerPool', deredden_params=dct({'rmed_width': s.w, 'rmed_minpts': s.m}), range_confs=LST(newoid(), s.n, full_conf), loader=LibObj('Loader', ['presto']), processes=nat(E, 'processes', 1))
        s.fn = Opq('Filename', E.ctx.fresh('fname'))
        ts = Opq('TS', opaque(E, 'load', {'fmt': 'presto', 'fname': s.fn}))
        ts = Opq('TS', opaque(E, 'deredden', {'self': ts, 'width': s.w, 'minpts': s.m}))
        ts = Opq('TS', opaque(E, 'normalise', {'self': ts}))
        def res(r):
            b = dict(FSD, tseries=ts, deredden=False, already_normalised=True, **{k: f(I(r)) for k, f in RF.items()})
            pg = Opq('Pgram', opaque(E, 'pgram', b))
            return found(E, dict(FPD, pgram=pg, **{k: f(I(r)) for k, f in RP.items()}))
        s.flat = Flat(E, 'peaks', s.n, lambda r: res(r)[0], lambda r, j: res(r)[1](j))
        return [s.wp, s.fn], {}
    def invs(s, E):
        class Late(InvSpec): pass
        return [FlatInv(s, lambda E, node: E.loopseq is not None and isinstance(E.loopseq.fn(unique_bound()), DCT), 'loop over the search ranges')]
    def post(s, E, a, r, s0, case): flat_post(E, s.label, r, s.flat, 'the peaks found in every range')
def FlatInv(s, match, name):
    """the Flat object is created in setup, after the invariants are registered"""
    class P:
        def __init__(p): p.sp = None; p.name = name
        def match(p, E, node):
            if p.sp is None or p.fl is not s.flat: p.fl = s.flat; p.sp = s.flat.spec(match, name)
            return p.sp.match(E, node)
        def __getattr__(p, k): return getattr(p.sp, k)
    return P()
def flat_post(E, L, r, fl, what):
    ctx = E.ctx
    r = E.thaw(r)
    try: sq = E.seq(r)
    except Unsupported: return bad(E, L + ': returns a list')
    g, j, p = ctx.fresh('list'), ctx.fresh('j'), ctx.fresh('p')
    ctx.oblige(L + ': number of elements of the result', sq.n == fl.off(fl.N), 'post')
    if cval(sq.n) == 0: return
    l = LST(newoid(), sq.n, sq.fn)
    def one():
        if fl.ident(l, p) is None: return bad(E, L + ': elements of the result')
        fl.member(g)
        within(E, [p == fl.off(g) + j], lambda: ctx.oblige(L + ': the result contains %s, in order' % what, z3.And(0 <= p, p < sq.n, fl.ident(l, p) == fl.elem(g, j)), 'post'))
    within(E, [0 <= g, g < fl.N, 0 <= j, j < fl.count(g)], one)
fn_npeaks = z3.Function('file.npeaks', IS, IS); fn_peak = z3.Function('file.peak', IS, IS, IS)
ch_npeaks = z3.Function('chunk.npeaks', IS, IS); ch_peak = z3.Function('chunk.peak', IS, IS, IS)
def file_peaks(E, b):
    o = b['fname']
    if not isinstance(o, Opq): raise Unsupported('file name %r' % (o,))
    E.ctx.assume(fn_npeaks(o.id) >= 0)
    return LST(newoid(), fn_npeaks(o.id), lambda j: Opq('Peak', fn_peak(o.id, I(j))))
def pool_model(E):
    """multiprocessing.Pool: map applies the function to every element, in order, whatever the number of processes (trusted)"""
    E.libfuncs = dict(getattr(E, 'libfuncs', {}))
    E.libfuncs['multiprocessing.Pool'] = lambda E, a, k: LibObj('Pool', [])
    def pmap(E, o, a, k):
        E.trusted.add('multiprocessing.Pool.map')
        sq = E.seq(a[1]); return LST(newoid(), sq.n, lambda i: E.call(a[0], [sq.fn(I(i))], {}))
    for m in ('map', 'imap'): E.opq_methods[('Pool', m)] = pmap
    for m in ('close', 'join', 'terminate', '__exit__'): E.opq_methods[('Pool', m)] = lambda E, o, a, k: None
    E.opq_methods[('Pool', '__enter__')] = lambda E, o, a, k: o
@spec
class ProcessFnameList(PySpec):
    key = 'riptide.pipeline.worker_pool.WorkerPool.process_fname_list'
    has_effect = False
    def prepare(s, E):
        opq_search(E); pool_model(E)
        E.contracts['riptide.pipeline.worker_pool.WorkerPool.process_fname'] = file_peaks
    def setup(s, E, case):
        s.N = nat(E, 'nfiles', 0); fid = E.ctx.freshfn('fname', ['Int'], 'Int')
        s.wp = mk_obj(E, 'riptide.pipeline.worker_pool', 'WorkerPool', deredden_params=dct({}), range_confs=LST.of([]), loader=LibObj('Loader', ['presto']), processes=nat(E, 'processes', 1))
        s.flat = Flat(E, 'peaks', s.N, lambda r: fn_npeaks(fid(I(r))), lambda r, j: fn_peak(fid(I(r)), I(j)))
        return [s.wp, LST(newoid(), s.N, lambda i: Opq('Filename', fid(simp(I(i)))))], {}
    def invs(s, E):
        def m(E, node):
            if E.loopseq is None: return False
            x = E.loopseq.fn(unique_bound())
            return isinstance(x, LST) or isinstance(x, Opq) and x.cls == 'Filename'
        return [FlatInv(s, m, 'loop over the results per file')]
    def post(s, E, a, r, s0, case): flat_post(E, s.label, r, s.flat, 'the peaks found in every file')
@spec
class PipelineSearch(PySpec):
    key = 'riptide.pipeline.pipeline.Pipeline.search'
    has_effect = False
    def prepare(s, E):
        opq_search(E)
        def lst(E, b):
            o = b['fnames']
            if not isinstance(o, Opq) or o.cls != 'Chunk': raise Unsupported('file names %r' % (o,))
            E.ctx.assume(ch_npeaks(o.id) >= 0)
            return LST(newoid(), ch_npeaks(o.id), lambda j: Opq('Peak', ch_peak(o.id, I(j))))
        E.contracts['riptide.pipeline.worker_pool.WorkerPool.process_fname_list'] = lst
    def setup(s, E, case):
        s.N = nat(E, 'nchunks', 0); s.proc = nat(E, 'processes', 1)
        def it(E, o, a, k):
            v = a[0] if a else k.get('chunksize')
            if v is None: raise Unsupported('chunk size')
            eq(E, s.key.split('riptide.')[-1] + ': file names are taken in chunks of the number of processes', v, s.proc)
            return LST(newoid(), s.N, lambda i: Opq('Chunk', I(i)))
        dm = dmiter_obj(E, iterate_filenames=it)
        wp = mk_obj(E, 'riptide.pipeline.worker_pool', 'WorkerPool', processes=s.proc)
        s.p = mk_pipeline(E, config=dct({'processes': s.proc}), dmiter=dm, worker_pool=wp, peaks=LST.of([]))
        s.flat = Flat(E, 'peaks', s.N, lambda r: ch_npeaks(I(r)), lambda r, j: ch_peak(I(r), I(j)))
        return [s.p], {}
    def invs(s, E):
        def m(E, node):
            if E.loopseq is None: return False
            x = E.loopseq.fn(unique_bound()); return isinstance(x, LST) or isinstance(x, Opq) and x.cls == 'Chunk'
        return [FlatInv(s, m, 'loop over the chunks of files')]
    def post(s, E, a, r, s0, case):
        ctx, L, fl = E.ctx, s.label, s.flat
        g = E.cells[s.p.id].f.get('peaks')
        if not isinstance(g, LST): return bad(E, L + ': the peaks are kept as a list')
        n = g.n
        ctx.oblige(L + ': number of peaks kept', n == fl.off(fl.N), 'post')
        if cval(n) == 0: return
        probe = unique_bound()
        if fl.ident(g, probe) is None: return bad(E, L + ': the peaks are kept')
        v = lambda i: fl.ident(g, i)
        p, q, c, j = ctx.fresh('p'), ctx.fresh('q'), ctx.fresh('chunk'), ctx.fresh('j')
        within(E, [0 <= p, p < q, q < n], lambda: ctx.oblige(L + ': the peaks are in order of increasing period', pk('period', v(p)) <= pk('period', v(q)), 'post'))
        # where the peak of a given chunk is: through the position in the unsorted list
        u = z3.Int('unsorted_position')
        t = simp(v(probe)); pos = None
        # v(probe) = h(PERM(probe)): find the argument of the unsorted list
        st = [t]
        while st and pos is None:
            x = st.pop()
            if z3.is_app(x) and x.decl().name().split('@')[0] in ('PERM', 'APERM'): pos = x
            else: st += x.children()
        def one():
            fl.member(c)
            target = simp(fl.off(c) + j)
            w = inverse(pos, probe, target) if pos is not None else target
            if w is None: raise Unsupported('order of the peaks')
            ctx.oblige(L + ': every peak found in a chunk of files is kept', z3.And(0 <= w, w < n, v(w) == fl.elem(c, j)), 'post')
        within(E, [0 <= c, c < fl.N, 0 <= j, j < fl.count(c)], one)

@spec
class PeakClusterInit(PySpec):
    key = 'riptide.pipeline.peak_cluster.PeakCluster.__init__'
    has_effect = False
    cases = ['defaults', 'all']
    def prepare(s, E): opq_clusters(E)
    def setup(s, E, case):
        s.n = nat(E, 'n', 1); f = E.ctx.freshfn('member', ['Int'], 'Int'); s.f = lambda i: f(simp(I(i)))
        c = E.modval(load(E.repo, 'riptide.pipeline.peak_cluster'), 'PeakCluster')
        s.o = ORef(E.new(StructVal('PeakCluster', {'__class__': c, '__list__': LST(newoid(), 0, None)})))
        s.rank = nat(E, 'rank') if case == 'all' else None
        return [s.o, LST(newoid(), s.n, lambda i: Opq('Peak', s.f(i)))], ({'rank': s.rank} if case == 'all' else {})
    def post(s, E, a, r, s0, case):
        f = E.cells[s.o.id].f; l = f.get('__list__'); L = s.label
        if not isinstance(l, LST): return bad(E, L + ': the cluster is a list')
        E.ctx.oblige(L + ': number of members', l.n == s.n, 'post')
        p = E.ctx.fresh('p')
        def one():
            v = l.at(p, E.ctx)
            E.ctx.oblige(L + ': members are the given peaks', v.id == s.f(p) if isinstance(v, Opq) and v.cls == 'Peak' else z3.BoolVal(False), 'post')
        within(E, [0 <= p, p < s.n], one)
        eq(E, L + ': rank', f.get('rank', 0), s.rank)
        for k in ('parent_fundamental', 'hfrac'): eq(E, L + ': ' + k, f.get(k, 0), None)
cd_n = z3.Function('cluster.size', IS, IS); cd_i = z3.Function('cluster.index', IS, IS, IS)
def cluster_model(E, s):
    """cluster1d by its contract: K groups of indices; calls are recorded in s.calls"""
    s.calls = []
    if not hasattr(s, 'setup0'):
        s.setup0 = s.setup
        def setup(E, case): s.calls.clear(); return s.setup0(E, case)
        s.setup = setup
    def c1d(E, b):
        x = E.thaw(b['x'])
        if not isinstance(x, ND) or len(x.shape) != 1: raise Unsupported('points to cluster')
        K = E.ctx.fresh('nclusters'); n = x.shape[0]
        E.ctx.assume(z3.And(K >= 0, (K == 0) == (n == 0)))
        E.assume_fact(FA(1, lambda c: (z3.And(0 <= c, c < K), cd_n(c) >= 1), [('cluster.size', 0)]))
        E.assume_fact(FA(2, lambda c, t: (z3.And(0 <= c, c < K, 0 <= t, t < cd_n(c)), z3.And(0 <= cd_i(c, t), cd_i(c, t) < n)), [('cluster.index', 0), ('cluster.index', 1)]))
        s.calls.append((n, E.reader(x), b['r'], b['already_sorted'], K))
        def ids(c): return E.arr([cd_n(I(c))], lambda t: cd_i(I(c), I(t)), 'int64')
        return LST(newoid(), K, ids)
    E.contracts['riptide.clustering.cluster1d'] = c1d
@spec
class ClusterPeaks(PySpec):
    key = 'riptide.pipeline.pipeline.Pipeline.cluster_peaks'
    has_effect = False
    def prepare(s, E):
        opq_clusters(E); cluster_model(E, s)
        def new(E, args, kw):
            if len(args) != 1 or kw: raise Unsupported('arguments of PeakCluster')
            return pylib.tolist(E, args[0])
        E.contracts['riptide.pipeline.peak_cluster.PeakCluster'] = new
    def setup(s, E, case):
        s.n = nat(E, 'npeaks', 0); f = E.ctx.freshfn('peak', ['Int'], 'Int'); s.pk = lambda i: f(simp(I(i)))
        # peaks are in order of increasing period (Pipeline.search) and frequency is the inverse of the period
        nm = s.pk(0).decl().name()
        E.assume_fact(FA(2, lambda i, j: (z3.And(0 <= i, i <= j, j < s.n), pk('freq', s.pk(i)) >= pk('freq', s.pk(j))), [(nm, 0), (nm, 0)]))
        s.rad, s.tmed = real(E, 'radius', 0), real(E, 'tobs_median', 0)
        dm = dmiter_obj(E, tobs_median=lambda E, o, a, k: s.tmed)
        s.old = LST.of([])
        s.p = mk_pipeline(E, config=dct({'clustering': dct({'radius': s.rad})}), dmiter=dm, peaks=LST(newoid(), s.n, lambda i: Opq('Peak', s.pk(i))), clusters=s.old)
        return [s.p], {}
    def post(s, E, a, r, s0, case):
        ctx, L = E.ctx, s.label
        c = E.cells[s.p.id].f.get('clusters')
        if not isinstance(c, LST): return bad(E, L + ': clusters are kept as a list')
        g = E.cells[s.p.id].f.get('peaks')
        ctx.oblige(L + ': the peaks are kept', z3.BoolVal(isinstance(g, LST)) if not isinstance(g, LST) else g.n == s.n, 'post')
        if not s.calls:
            ctx.oblige(L + ': no clustering exactly when there are no peaks', s.n == 0, 'post')
            ctx.oblige(L + ': no clusters when there are no peaks', c.n == 0, 'post'); return
        if len(s.calls) != 1: return bad(E, L + ': clusters once')
        n, rd, rad, srt, K = s.calls[0]
        ctx.oblige(L + ': every peak is clustered', n == s.n, 'post')
        eq(E, L + ': clustering radius', rad, s.rad / s.tmed)
        p, q, t = ctx.fresh('p'), ctx.fresh('q'), ctx.fresh('t')
        within(E, [0 <= p, p < n], lambda: ctx.oblige(L + ': peaks are clustered by their frequency', rd(p) == pk('freq', s.pk(p)), 'post'))
        so = E.truth(srt)
        ctx.oblige(L + ': the frequencies are sorted if said to be', z3.BoolVal(so) if not so else z3.BoolVal(True), 'post') if isinstance(so, bool) and not so else \
            within(E, [0 <= p, p <= q, q < n], lambda: ctx.oblige(L + ': the frequencies are sorted if said to be', rd(p) >= rd(q), 'post'))
        ctx.oblige(L + ': number of clusters', c.n == K, 'post')
        def one():
            v = c.at(p, ctx); v = E.thaw(v)
            if not isinstance(v, LST): return bad(E, L + ': clusters of peaks')
            ctx.oblige(L + ': number of peaks of a cluster', v.n == cd_n(p), 'post')
            def two():
                m = v.at(t, ctx)
                ctx.oblige(L + ': a cluster holds the peaks of its group', m.id == s.pk(cd_i(p, t)) if isinstance(m, Opq) and m.cls == 'Peak' else z3.BoolVal(False), 'post')
            within(E, [0 <= t, t < cd_n(p)], two)
        within(E, [0 <= p, p < K], one)

# ------------------------------------------------------------------ C22
def frame_model(E):
    """pandas.DataFrame(list of named tuples): one row per element, in order; drop(columns=...) keeps the rows; to_string is opaque"""
    E.libfuncs = dict(getattr(E, 'libfuncs', {}))
    def df(E, a, k):
        if len(a) != 1 or k: raise Unsupported('arguments of DataFrame')
        E.trusted.add('pandas.DataFrame')
        return LibObj('DataFrame', [pylib.tolist(E, a[0]), ()])
    E.libfuncs['pandas.DataFrame'] = df
    def names(v): return tuple(E.seq(v).fn(I(i)) for i in range(cval(E.seq(v).n)))
    def drop(E, o, a, k):
        if a or set(k) != {'columns'}: raise Unsupported('arguments of DataFrame.drop')
        return LibObj('DataFrame', [o.args[0], o.args[1] + names(k['columns'])])
    E.opq_methods[('DataFrame', 'drop')] = drop
    E.opq_methods[('DataFrame', 'to_string')] = lambda E, o, a, k: 'table'
def argmaxes(E, x):
    """facts about the ARGMAX terms in x"""
    st = [x]; done = set()
    while st:
        y = st.pop()
        if not z3.is_app(y) or y.get_id() in done: continue
        done.add(y.get_id()); st += y.children()
        if y.decl().name().split('@')[0] == 'ARGMAX':
            _, fn, extra = ho_body(y)
            pylib.argmax_facts(E, extra[-1], fn)
            # the facts are about the canonical term, which may be written differently
            A = y; n = extra[-1]
            E.ctx.assume(z3.Implies(I(n) > 0, z3.And(0 <= A, A < n)))
            E.assume_fact(FA(1, lambda u: (z3.And(0 <= u, u < n), R(fn(u)) <= R(fn(A)))))
@spec
class RunProgram(PySpec):
    key = 'riptide.apps.rseek.run_program'
    cases = ['presto', 'sigproc']
    has_effect = False
    def prepare(s, E):
        opq_search(E); cluster_model(E, s); frame_model(E)
        def loader(fmt): return lambda E, b: Opq('TS', opaque(E, 'load', {'fmt': fmt, 'fname': b['fname']}))
        E.contracts['riptide.time_series.TimeSeries.from_presto_inf'] = loader('presto')
        E.contracts['riptide.time_series.TimeSeries.from_sigproc'] = loader('sigproc')
    def setup(s, E, case):
        s.A = {'Pmin': real(E, 'Pmin', 0), 'Pmax': real(E, 'Pmax', 0), 'bmin': nat(E, 'bmin', 1), 'bmax': nat(E, 'bmax', 1), 'smin': real(E, 'smin'), 'wtsp': real(E, 'wtsp', 0), 'rmed_width': real(E, 'rmed_width', 0),
               'rmed_minpts': nat(E, 'rmed_minpts', 1), 'clrad': real(E, 'clrad', 0), 'fname': Opq('Filename', E.ctx.fresh('fname')), 'format': case}
        E.opq['Args'] = {k: (lambda E, o, v=v: v) for k, v in s.A.items()}
        A = s.A
        s.ts = Opq('TS', opaque(E, 'load', {'fmt': case, 'fname': A['fname']}))
        s.len = z3.Function('TS.length', IS, RS)(s.ts.id); E.ctx.assume(s.len > 0)
        b = dict(FSD, tseries=s.ts, period_min=A['Pmin'], period_max=A['Pmax'], bins_min=A['bmin'], bins_max=A['bmax'], rmed_width=A['rmed_width'], rmed_minpts=A['rmed_minpts'], wtsp=A['wtsp'], fpmin=I(1), ducy_max=R(Fraction(0.3)))
        s.n, s.at, _ = found(E, dict(FPD, pgram=Opq('Pgram', opaque(E, 'pgram', b)), smin=A['smin'], clrad=A['clrad']))
        return [Opq('Args', I(0))], {}
    def post(s, E, a, r, s0, case):
        ctx, L = E.ctx, s.label
        ctx.oblige(L + ': None is returned exactly when there are no peaks', (s.n == 0) if r is None else s.n > 0, 'post')
        if r is None: return
        if not (isinstance(r, LibObj) and r.name == 'DataFrame'): return bad(E, L + ': returns a table')
        rows, dropped = r.args
        ctx.oblige(L + ': the table keeps the documented columns', z3.BoolVal(set(dropped) == {'iw', 'ip'}), 'post')
        if len(s.calls) != 1: return bad(E, L + ': groups the peaks once')
        n, rd, rad, srt, K = s.calls[0]
        ctx.oblige(L + ': every peak is grouped', n == s.n, 'post')
        eq(E, L + ': grouping radius', rad, s.A['clrad'] / s.len)
        so = E.truth(srt)
        ctx.oblige(L + ': the frequencies are not claimed to be sorted', z3.Not(so) if z3.is_expr(so) else z3.BoolVal(not so), 'post')
        p, q, t, g = ctx.fresh('p'), ctx.fresh('q'), ctx.fresh('t'), ctx.fresh('group')
        within(E, [0 <= p, p < n], lambda: ctx.oblige(L + ': peaks are grouped by frequency', rd(p) == pk('freq', s.at(p)), 'post'))
        ctx.oblige(L + ': one row per group', rows.n == K, 'post')
        v = lambda i: rows.at(i, ctx)
        if not (isinstance(v(unique_bound()), Opq) and v(unique_bound()).cls == 'Peak'): return bad(E, L + ': rows are peaks')
        within(E, [0 <= p, p < q, q < K], lambda: ctx.oblige(L + ': rows are in decreasing order of S/N', pk('snr', v(p).id) >= pk('snr', v(q).id), 'post'))
        probe = unique_bound(); st = [simp(v(probe).id)]; pos = None
        while st and pos is None:
            x = st.pop()
            if z3.is_app(x) and x.decl().name().split('@')[0] in ('PERM', 'APERM'): pos = x
            else: st += x.children()
        def one():
            w = inverse(pos, probe, g) if pos is not None else g
            if w is None: raise Unsupported('order of the rows')
            ctx.oblige(L + ': every group has a row', z3.And(0 <= w, w < K), 'post')
            x = v(w).id
            if pos is not None:
                pw = simp(z3.substitute(pos, (probe, I(w))))
                ctx.oblige(L + ': position of the row of a group', pw == g, 'post'); ctx.assume(pw == g)
                x = z3.substitute(simp(x), (pw, g))
            x = simp(x)
            argmaxes(E, x)
            s.member(E, L, x, g)
            within(E, [0 <= t, t < cd_n(g)], lambda: ctx.oblige(L + ': no peak of the group has a higher S/N', pk('snr', s.at(cd_i(g, t))) <= pk('snr', x), 'post'))
        within(E, [0 <= g, g < K], one)
    def member(s, E, L, x, g):
        """x is the peak at one of the group's indices: find the index term"""
        st = [x]; cand = []
        while st:
            y = st.pop()
            if z3.is_app(y):
                if y.decl().name() == 'cluster.index': cand.append(y)
                st += y.children()
        E.ctx.oblige(L + ': the row is a peak of the group', z3.Or(*[z3.And(y.arg(0) == g, 0 <= y.arg(1), y.arg(1) < cd_n(g), x == s.at(y)) for y in cand] or [z3.BoolVal(False)]), 'post')
