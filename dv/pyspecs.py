"""Contracts of the Python functions in /repo/riptide and the driver that verifies function bodies against them."""
import z3
from dv.core import *
from dv.machine import *
from dv.pyval import *
from dv import pyx, pylib
from dv.pyx import Py, Env, FA, InvSpec, load
from dv import spec_cxx as SC

REG = {}
def spec(c):
    REG[c.key] = c; return c

class PySpec:
    key = None
    cases = ['']
    exc = 'ValueError'
    has_effect = True
    def invs(s, E): return []
    def prepare(s, E): pass
    def setup(s, E, case): raise NotImplementedError
    def raises(s, E, a, case): return None
    def post(s, E, a, r, s0, case): pass
    def frame(s, E, a): return []
    def effect(s, E, b): raise NotImplementedError

def bad(E, name, kind='post'): E.ctx.oblige(name, z3.BoolVal(False), kind)
def eq(E, name, got, want):
    """obligations: equal values"""
    if want is None or got is None or isinstance(want, (str, bool)) or isinstance(got, (str, bool)):
        if isinstance(want, bool) and z3.is_expr(got) and z3.is_bool(got): E.ctx.oblige(name, got if want else z3.Not(got), 'post'); return
        if isinstance(got, bool) and z3.is_expr(want) and z3.is_bool(want): E.ctx.oblige(name, want if got else z3.Not(want), 'post'); return
        E.ctx.oblige(name, z3.BoolVal(type(got) is type(want) and got == want), 'post'); return
    if isinstance(want, Opq):
        E.ctx.oblige(name, got.id == want.id if isinstance(got, Opq) and got.cls == want.cls else z3.BoolVal(False), 'post'); return
    if not E.isnum(got) or not E.isnum(want): E.ctx.oblige(name, z3.BoolVal(bool(same(got, want))), 'post'); return
    g, w = E.num(got), E.num(want)
    if g.sort() != w.sort(): g, w = R(g), R(w)
    E.ctx.oblige(name, g == w, 'post')
def is_int(E, name, v): E.ctx.oblige(name + ' is an integer', z3.BoolVal(E.isnum(v) and z3.is_int(E.num(v))), 'post')
def arr_post(E, name, got, shape, fn=None, dtype=None):
    """obligations: got is an array of this shape and content"""
    if isinstance(got, Rec): got = E.thaw(got)
    if not isinstance(got, ND): return bad(E, name + ' is an array')
    if len(got.shape) != len(shape): return bad(E, name + ': number of dimensions')
    for k, (x, y) in enumerate(zip(got.shape, shape)): E.ctx.oblige('%s: size of axis %d' % (name, k), x == y, 'post')
    if dtype is not None: E.ctx.oblige(name + ': data type is %s' % dtype, z3.BoolVal(E.dtype(got) == dtype), 'post')
    if fn is None: return
    us = [E.ctx.fresh('i') for _ in shape]
    n = len(E.ctx.pc)
    E.ctx.assume(z3.And(*[z3.And(0 <= u, u < s) for u, s in zip(us, shape)]) if us else z3.BoolVal(True))
    r = E.reader(got)
    with_ = E.reader
    g, w = E.num(r(*us)), E.num(fn(*us))
    if g.sort() != w.sort(): g, w = R(g), R(w)
    E.ctx.oblige(name + ': contents', g == w, 'post')
    del E.ctx.pc[n:]; del E.ctx.pck[n:]
def unchanged(E, name, a, s0):
    """the array has the content it had in state s0"""
    c0, c1 = s0[0][a.buf], E.cells[a.buf]
    if c0 is c1: E.ctx.oblige(name + ' is not modified', z3.BoolVal(True), 'frame'); return
    us = [E.ctx.fresh('i') for _ in c0.shape]
    n = len(E.ctx.pc)
    E.ctx.assume(z3.And(*[z3.And(0 <= u, u < s) for u, s in zip(us, c0.shape)]))
    E.ctx.oblige(name + ' is not modified', E.num(c0.fn(*us)) == E.num(c1.fn(*us)), 'frame')
    del E.ctx.pc[n:]; del E.ctx.pck[n:]
def known(E, name, f):
    """fact proved here and available to the obligations that follow"""
    E.ctx.oblige('lemma: ' + name, f, 'lemma'); E.ctx.assume(f)
def nat(E, name, lo=0, hi=SC.MAXLEN):
    x = E.ctx.fresh(name); E.ctx.assume(z3.And(x >= lo, x < hi)); return x
def real(E, name, lo=None):
    x = E.ctx.fresh(name, 'Real')
    if lo is not None: E.ctx.assume(x > lo)
    return x
def sarr(E, name, shape, sort='Real', dtype='float64'): return E.symarr(name, [I(x) for x in shape], sort, dtype)
def iff_raises(E, s, label, rs, thrown=None):
    pass

def run(key, ctx, dropped, repo, case_only=None):
    s = REG[key]()
    trusted, used = set(), set()
    for case in s.cases:
        if case_only is not None and case != case_only: continue
        E = Py(ctx, repo)
        ctx.pc.clear(); ctx.pck.clear(); ctx.foralls = []; ctx.idx = []
        for k, c in REG.items():
            if c.has_effect and k not in dropped:
                o = c()
                E.contracts[k] = (lambda E, b, o=o: o.effect(E, b))
        s.prepare(E)
        label = key.split('riptide.')[-1] + (' [%s]' % case if case else '')
        ctx.func = label
        E.invs = s.invs(E)
        cnt = [0]
        def body():
            E.top = key; E.calldepth = 0; E.nobranch = 0
            parts = key.split('.')
            mn, nm = key, []
            while load(repo, mn) is None:
                mn, t = mn.rsplit('.', 1); nm.insert(0, t)
            mod = load(repo, mn)
            E.env = Env(mod)
            args, kw = s.setup(E, case)
            a = {'args': args, 'kw': kw}
            f = E.modval(mod, nm[0])
            if f is None: raise Unsupported('there is no %s in %s' % (nm[0], mn))
            for t in nm[1:]:
                f = E.clsattr(f, t, None) if isinstance(f, PyClass) else E.getattr(f, t)
                if f is NotImplemented: raise Unsupported('there is no %s' % key)
            rs = s.raises(E, a, case)
            s0 = E.snap()
            try: r = E.call(f, args, kw)
            except CThrow as e:
                cnt[0] += 1
                if rs is None: ctx.oblige('%s: no exception is raised (%s)' % (label, e.etype), z3.BoolVal(False), 'exceptional')
                else:
                    ctx.oblige('%s: exception only when specified (%s)' % (label, e.etype), rs, 'exceptional')
                    ctx.oblige('%s: the exception is %s' % (label, s.exc), z3.BoolVal(E.isexc(e.etype, [s.exc])), 'exceptional')
                for n, x in s.frame(E, a): unchanged(E, '%s: %s' % (label, n), x, s0)
                if hasattr(s, 'post_throw'): s.post_throw(E, a, s0, case, label)
                return 'throw'
            cnt[0] += 1
            if rs is not None: ctx.oblige('%s: invalid arguments are rejected' % label, z3.Not(rs), 'exceptional')
            s.label = label
            s.post(E, a, r, s0, case)
            for n, x in s.frame(E, a): unchanged(E, '%s: %s' % (label, n), x, s0)
            return 'ok'
        E.explore(body)
        ctx.oblige('%s: specification is satisfiable (some path exists)' % label, z3.BoolVal(cnt[0] > 0), 'cover')
        trusted |= E.trusted; used |= E.used_contracts
    return trusted, used

# ------------------------------------------------------------------ C02
def freq_val(N, p, dt, s):
    """specified trial frequency s"""
    m = idiv(N, p)
    return z3.If(m == 1, 1 / (R(p) * R(dt)), (1 / R(p) - R(s) / (R(m - 1) * R(p) * R(p))) / R(dt))
def bad_freq(N, p, dt): return z3.Not(z3.And(N > 0, p > 1, N >= p, R(dt) > 0))

class FreqSpec(PySpec):
    cases = ['integers', 'N not an integer', 'p not an integer', 'default dt', 'N None']
    def setup(s, E, case):
        N, p, dt = E.ctx.fresh('N'), E.ctx.fresh('p'), E.ctx.fresh('dt', 'Real')
        E.ctx.assume(z3.And(N < SC.MAXLEN, p < SC.MAXLEN))
        if case == 'N not an integer': N = E.ctx.fresh('N', 'Real')
        if case == 'p not an integer': p = E.ctx.fresh('p', 'Real')
        if case == 'N None': N = None
        s.v = (N, p, dt if case != 'default dt' else R(1))
        return ([N, p], {}) if case == 'default dt' else ([N, p], {'dt': dt})
    def raises(s, E, a, case):
        if case in ('N not an integer', 'p not an integer', 'N None'): return z3.BoolVal(True)
        return bad_freq(*s.v)
    inv = False
    def post(s, E, a, r, s0, case):
        N, p, dt = s.v; m = idiv(N, p); ctx = E.ctx
        val = lambda k: freq_val(N, p, dt, k)
        arr_post(E, s.label + ': result', r, [m], (lambda k: 1 / val(k)) if s.inv else val, 'float64')
    def effect(s, E, b):
        N, p, dt = b['N'], b['p'], b['dt']
        if not (z3.is_expr(N) and z3.is_int(N) and z3.is_expr(p) and z3.is_int(p)): raise CThrow('ValueError')
        if E.decide(bad_freq(N, p, dt)): raise CThrow('ValueError')
        val = lambda k: freq_val(N, p, dt, k)
        return E.arr([idiv(N, p)], (lambda k: 1 / val(I(k))) if s.inv else (lambda k: val(I(k))))

@spec
class FFAFreq(FreqSpec): key = 'riptide.libffa.ffafreq'
@spec
class FFAPrd(FreqSpec):
    key = 'riptide.libffa.ffaprd'; inv = True

def freq_lemmas(ctx):
    """the specified frequencies are positive and strictly decreasing"""
    N, p, s = ctx.fresh('N'), ctx.fresh('p'), ctx.fresh('s')
    dt = ctx.fresh('dt', 'Real')
    ctx.assume(z3.And(N >= p, p >= 2, dt > 0))
    m = idiv(N, p)
    ctx.oblige('lemma: there is at least one trial', m >= 1, 'lemma')
    M, P, S, T = [ctx.fresh(x, 'Real') for x in 'MPST']
    D = ctx.fresh('D', 'Real')
    # with M = m - 1 >= 1, 0 <= S <= M: 1/p - S/(M p^2) = (M p - S)/(M p^2) and M p - S >= M (p - 1) > 0
    h = z3.And(M >= 1, P >= 2, 0 <= S, S <= M, D > 0)
    ctx.oblige('lemma: frequency as one fraction', z3.Implies(h, (1 / P - S / (M * P * P)) / D == (M * P - S) / (M * P * P * D)), 'lemma')
    ctx.oblige('lemma: numerator is positive', z3.Implies(h, M * P - S > 0), 'lemma')
    Q = ctx.fresh('Q', 'Real')
    ctx.oblige('lemma: denominator is positive', z3.Implies(z3.And(M >= 1, P >= 2, D > 0), z3.And(M * P > 0, (M * P) * P > 0, ((M * P) * P) * D > 0)), 'lemma')
    ctx.oblige('lemma: frequencies are positive', z3.Implies(z3.And(T > 0, Q > 0), T / Q > 0), 'lemma')
    ctx.oblige('lemma: frequencies decrease strictly', z3.Implies(z3.And(Q > 0, S < T), (M * P - T) / Q < (M * P - S) / Q), 'lemma')
    ctx.oblige('lemma: a single trial is positive', z3.Implies(z3.And(P >= 2, D > 0), z3.And(P * D > 0)), 'lemma')

# ------------------------------------------------------------------ helpers for the specifications below
def shared(o):
    class S(PySpec): pass
    return S
def rd(E, a): return E.reader(a)
def ts_len(E, name, lo=0): return nat(E, name, lo)

class Wrapper(PySpec):
    has_effect = False            # a caller is checked against the body, which is one or two calls of contracted functions

# ------------------------------------------------------------------ C01 wrappers
@spec
class FFA2(Wrapper):
    key = 'riptide.libffa.ffa2'
    cases = ['float32', 'float64', 'integers']
    def setup(s, E, case):
        s.m, s.p = nat(E, 'm', 1), nat(E, 'p', 1)
        s.x = sarr(E, 'x', [s.m, s.p], 'Int' if case == 'integers' else 'Real', 'int64' if case == 'integers' else case)
        s.f = pylib.flatreader(E, s.x)
        return [s.x], {}
    def post(s, E, a, r, s0, case):
        m, p = s.m, s.p
        f = lambda q: R(E.num(s.f(q)))
        arr_post(E, s.label + ': result', r, [m, p], lambda i, j: ffa(f, I(0), m, p, I(i), I(j)), 'float32')
    def frame(s, E, a): return [('the input', s.x)]

@spec
class FFA1(Wrapper):
    key = 'riptide.libffa.ffa1'
    cases = ['1-D', '2-D', 'p not an integer']
    def setup(s, E, case):
        s.N = nat(E, 'N', 1)
        s.p = E.ctx.fresh('p') if case != 'p not an integer' else E.ctx.fresh('p', 'Real')
        s.x = sarr(E, 'x', [s.N] if case != '2-D' else [s.N, nat(E, 'N2', 1)], 'Real', 'float32')
        s.f = E.reader(s.x)
        return [s.x, s.p], {}
    def raises(s, E, a, case):
        return z3.BoolVal(True) if case != '1-D' else z3.Not(z3.And(s.p >= 1, s.p <= s.N))
    def post(s, E, a, r, s0, case):
        m = idiv(s.N, s.p)
        arr_post(E, s.label + ': result', r, [m, s.p], lambda i, j: ffa(s.f, I(0), m, s.p, I(i), I(j)), 'float32')
    def frame(s, E, a): return [('the input', s.x)]

# ------------------------------------------------------------------ C03 / C04 wrappers
def down_val(E, x, n, f): return lambda k: SC.integral(E, x, n, (R(k) + 1) * f) - SC.integral(E, x, n, R(k) * f)
@spec
class PDownsample(Wrapper):
    key = 'riptide.libffa.downsample'
    def setup(s, E, case):
        s.n = nat(E, 'n', 0); s.f = E.ctx.fresh('f', 'Real')
        s.x = sarr(E, 'x', [s.n], 'Real', 'float32'); s.r = E.reader(s.x)
        return [s.x, s.f], {}
    def raises(s, E, a, case): return SC.bad_factor(s.n, s.f)
    def post(s, E, a, r, s0, case):
        arr_post(E, s.label + ': result', r, [ffloor(R(s.n) / s.f)], down_val(E, s.r, s.n, s.f), 'float32')
    def frame(s, E, a): return [('the input', s.x)]

@spec
class PBoxcar(Wrapper):
    key = 'riptide.libffa.boxcar_snr'
    cases = ['1-D', '2-D', '3-D', 'default noise', 'widths as a list']
    def setup(s, E, case):
        s.b = nat(E, 'b', 1); s.nw = nat(E, 'nw', 1)
        d = 2 if case not in ('1-D', '3-D') else int(case[0])
        s.lead = [nat(E, 'm%d' % k, 1) for k in range(d - 1)]
        s.x = sarr(E, 'x', s.lead + [s.b], 'Real', 'float64'); s.r = E.reader(s.x)
        s.w = sarr(E, 'w', [s.nw], 'Int', 'int64'); s.rw = E.reader(s.w)
        s.sd = E.ctx.fresh('sd', 'Real')
        w = s.w
        if case == 'widths as a list':
            f = s.rw; w = LST(newoid(), s.nw, lambda i: f(i))
        u = E.ctx.fresh('u')
        if case == 'default noise': s.sd = R(1); return [s.x, w], {}
        return [s.x, w], {'stdnoise': s.sd}
    def raises(s, E, a, case):
        bad_ = pylib.quant(E, Seq(s.nw, lambda i: z3.Not(z3.And(s.rw(i) > 0, s.rw(i) < s.b))), False)
        return z3.Or(bad_, z3.Not(R(s.sd) > 0))
    def post(s, E, a, r, s0, case):
        n = len(s.lead)
        def val(*i): return SC.boxcar_snr(E, lambda e: s.r(*(list(i[:n]) + [e])), s.b, s.rw(i[n]), R(s.sd))
        arr_post(E, s.label + ': result', r, s.lead + [s.nw], val, 'float32')
    def frame(s, E, a): return [('the input', s.x), ('the widths', s.w)]

# ------------------------------------------------------------------ C08
def bad_window(n, w): return z3.Or(imod(w, I(2)) != 1, w >= n)
@spec
class RunMed(Wrapper):
    key = 'riptide.running_medians.running_median'
    cases = ['float32', 'float64']
    def setup(s, E, case):
        s.n = nat(E, 'n', 1); s.w = nat(E, 'w', 1)
        s.x = sarr(E, 'x', [s.n], 'Real', case); s.r = E.reader(s.x)
        return [s.x, s.w], {}
    def raises(s, E, a, case): return bad_window(s.n, s.w)
    def post(s, E, a, r, s0, case): arr_post(E, s.label + ': result', r, [s.n], lambda i: pylib.rmed_val(s.r, s.n, s.w, I(i)))
    def frame(s, E, a): return [('the input', s.x)]

def group_mean(x, f): return lambda i: ssum(lambda k: x(simp(I(i) * f + k)), I(0), f) / R(f)
@spec
class Scrunch(Wrapper):
    key = 'riptide.running_medians.scrunch'
    def setup(s, E, case):
        s.n = nat(E, 'n', 1); s.f = nat(E, 'f', 1)
        s.x = sarr(E, 'x', [s.n], 'Real', 'float32'); s.r = E.reader(s.x)
        return [s.x, s.f], {}
    def post(s, E, a, r, s0, case): arr_post(E, s.label + ': result', r, [idiv(s.n, s.f)], group_mean(s.r, s.f))
    def frame(s, E, a): return [('the input', s.x)]

def fast_rmed(x, n, w, mp, sc):
    """specified value at sample i when the scrunch factor sc is at least 2"""
    m = idiv(n, sc)
    lo = group_mean(x, sc)
    med = lambda k: pylib.rmed_val(lo, m, mp, I(k))
    return lambda i: pylib.interp_val(lambda k: R(k) * R(sc) + R(Fraction(1, 2)) * (R(sc) - 1), med, m, R(I(i)))
def scrunch_factor(w, mp):
    q = R(w) / R(mp)
    return ffloor(z3.If(q > 1, q, R(1)))
@spec
class FastRunMed(PySpec):
    key = 'riptide.running_medians.fast_running_median'
    cases = ['float32', 'default points']
    exc = 'ValueError'
    def setup(s, E, case):
        s.n = nat(E, 'n', 1); s.w = nat(E, 'w', 1); s.mp = nat(E, 'minpts', 1) if case != 'default points' else I(101)
        s.x = sarr(E, 'x', [s.n], 'Real', 'float32'); s.r = E.reader(s.x)
        s.sc = scrunch_factor(s.w, s.mp)
        # data shorter than the scrunch factor raise an error of unspecified type
        E.ctx.assume(s.sc <= s.n)
        return ([s.x, s.w, s.mp], {}) if case != 'default points' else ([s.x, s.w], {})
    def raises(s, E, a, case): return fast_bad(s.n, s.w, s.mp)
    def post(s, E, a, r, s0, case):
        i0 = s.sc == 1
        arr_post(E, s.label + ': result', r, [s.n], lambda i: z3.If(i0, R(pylib.rmed_val(s.r, s.n, s.w, I(i))), fast_rmed(s.r, s.n, s.w, s.mp, s.sc)(i)))
    def frame(s, E, a): return [('the input', s.x)]
    def effect(s, E, b):
        x = E.thaw(b['data']); w, mp = E.num(b['width_samples']), E.num(b['min_points'])
        if len(x.shape) != 1 or not z3.is_int(w) or not z3.is_int(mp): raise Unsupported('argument types of fast_running_median')
        n = x.shape[0]
        E.ctx.oblige('fast_running_median: positive number of points, window and samples', z3.And(w >= 1, mp >= 1, n >= 1), 'pre')
        sc = scrunch_factor(w, mp)
        if not E.decide(sc <= n): raise CThrow('IndexError')
        if E.decide(fast_bad(n, w, mp)): raise CThrow('ValueError')
        r = E.reader(x)
        c = E.decide(sc == 1)
        if c: return E.arr([n], lambda i: pylib.rmed_val(r, n, w, I(i)), E.dtype(x))
        f = fast_rmed(r, n, w, mp, sc)
        return E.arr([n], lambda i: f(I(i)), 'float64')
def fast_bad(n, w, mp):
    sc = scrunch_factor(w, mp)
    return z3.Or(imod(mp, I(2)) != 1, z3.And(sc == 1, bad_window(n, w)), z3.And(sc != 1, mp >= idiv(n, sc)))

# ------------------------------------------------------------------ time series objects
MD_KEYS = ('source_name', 'skycoord', 'dm', 'mjd', 'tobs', 'fname')
def mk_metadata(E, **ent):
    d = {k: ent.get(k, Opq('value', E.ctx.fresh('md_' + k))) for k in MD_KEYS}
    for k, v in ent.items(): d[k] = v
    cls = E.modval(load(E.repo, 'riptide.metadata'), 'Metadata')
    return ORef(E.new(StructVal('Metadata', {'__class__': cls, '__dict__': DCT(newoid(), d, Opq('dict', E.ctx.fresh('md_rest')))})))
def mk_ts(E, n=None, tsamp=None, dtype='float32', **ent):
    """a time series that satisfies the class invariant: float32 data, positive sampling time, metadata['tobs'] = length"""
    n = nat(E, 'n', 1) if n is None else n
    tsamp = real(E, 'tsamp', 0) if tsamp is None else tsamp
    x = sarr(E, 'data', [n], 'Real', dtype)
    cls = E.modval(load(E.repo, 'riptide.time_series'), 'TimeSeries')
    md = mk_metadata(E, tobs=simp(R(n) * tsamp), **ent)
    return ORef(E.new(StructVal('TimeSeries', {'__class__': cls, '_data': x, '_tsamp': tsamp, 'metadata': md})))
def snapcell(s0, o): return s0[0][o.id]
def same_dict(E, name, d, want, override):
    if not isinstance(d, DCT): return bad(E, name + ' is a dictionary')
    E.ctx.oblige(name + ': keys', z3.BoolVal(set(d.ent) == set(want.ent) and same(d.rest, want.rest)), 'post')
    for k in want.ent:
        if k in d.ent: eq(E, '%s[%r]' % (name, k), d.ent[k], override.get(k, want.ent[k]))
def ts_post(E, name, o, n, val, tsamp, md0, cls=None):
    """obligations: o is a time series with n samples val(i), sampling time tsamp, and metadata md0 with tobs updated"""
    if not isinstance(o, ORef): return bad(E, name + ' is a time series')
    f = E.cells[o.id].f
    for k in ('_data', '_tsamp', 'metadata'):
        if k not in f: return bad(E, '%s has attribute %s' % (name, k))
    arr_post(E, name + ': data', f['_data'], [n], val, 'float32')
    eq(E, name + ': sampling time', f['_tsamp'], tsamp)
    if not isinstance(f['metadata'], ORef): return bad(E, name + ': metadata')
    m = E.cells[f['metadata'].id]
    E.ctx.oblige(name + ': metadata class', z3.BoolVal(m.tname == 'Metadata'), 'post')
    same_dict(E, name + ': metadata', m.f['__dict__'], md0, {'tobs': simp(R(n) * R(tsamp))})
def ts_unchanged(E, name, o, s0, x, f0, md):
    f1 = E.cells[o.id].f
    E.ctx.oblige(name + ': attributes unchanged', z3.BoolVal(set(f1) == set(f0) and all(same(f1[k], f0[k]) for k in f0)), 'frame')
    unchanged(E, name + ': data', x, s0)
    d0, d1 = s0[0][md.id].f['__dict__'], E.cells[md.id].f['__dict__']
    E.ctx.oblige(name + ': metadata unchanged', z3.BoolVal(d0 is d1 or (d0.ent.keys() == d1.ent.keys() and all(same(d0.ent[k], d1.ent[k]) for k in d0.ent) and same(d0.rest, d1.rest))), 'frame')

class TSOp(PySpec):
    has_effect = True
    cases = ['out of place', 'in place', 'default']
    def setup(s, E, case):
        s.ts = mk_ts(E); f = E.cells[s.ts.id].f
        s.f0 = f; s.x = f['_data']; s.n = s.x.shape[0]; s.tsamp = f['_tsamp']; s.md = f['metadata']
        s.r = E.reader(s.x)
        a, kw = s.args(E)
        if case == 'in place': kw['inplace'] = True
        if case == 'out of place': kw['inplace'] = False
        return [s.ts] + a, kw
    def expected(s, E): raise NotImplementedError
    def post(s, E, a, r, s0, case):
        n, val, tsamp = s.expected(E)
        md0 = s0[0][s.md.id].f['__dict__']
        if case == 'in place':
            eq(E, s.label + ': returned value', r, None)
            ts_post(E, s.label + ': the object', s.ts, n, val, tsamp, md0)
            E.ctx.oblige(s.label + ': class unchanged', z3.BoolVal(E.cells[s.ts.id].f['__class__'] == s.f0['__class__']), 'post')
            # the array given by the caller at construction keeps its content only if it is not shared; nothing to prove here
            return
        ts_post(E, s.label + ': result', r, n, val, tsamp, md0)
        if isinstance(r, ORef):
            E.ctx.oblige(s.label + ': the result is a new object', z3.BoolVal(r.id != s.ts.id), 'post')
            f = E.cells[r.id].f
            if 'metadata' in f and isinstance(f['metadata'], ORef): E.ctx.oblige(s.label + ': the metadata of the result are a copy', z3.BoolVal(f['metadata'].id != s.md.id), 'post')
            if isinstance(f.get('_data'), ND): E.ctx.oblige(s.label + ': the data of the result are not shared', z3.BoolVal(f['_data'].buf != s.x.buf), 'post')
        ts_unchanged(E, s.label + ': the original', s.ts, s0, s.x, s.f0, s.md)
    def post_throw(s, E, a, s0, case, label): ts_unchanged(E, label + ': the original', s.ts, s0, s.x, s.f0, s.md)
    def effect(s, E, b):
        """call sites: result as specified"""
        ts = b['self']; f = E.cells[ts.id].f
        s.ts, s.f0, s.x, s.tsamp, s.md = ts, f, f['_data'], R(E.num(f['_tsamp'])), f['metadata']
        s.n = s.x.shape[0]; s.r = E.reader(s.x)
        s.bind(E, b)
        s.call_pre(E)
        rs = s.raises(E, None, None)
        if rs is not None and E.decide(rs): raise CThrow(s.exc)
        n, val, tsamp = s.expected(E)
        inp = E.istrue(b['inplace'])
        md = E.cells[s.md.id]
        ent = dict(md.f['__dict__'].ent); ent['tobs'] = simp(R(n) * R(tsamp))
        d = DCT(md.f['__dict__'].oid if inp else newoid(), ent, md.f['__dict__'].rest)
        x = E.arr([n], lambda i: val(I(i)), 'float32')
        if inp:
            E.cells[s.md.id] = StructVal(md.tname, {**md.f, '__dict__': d})
            E.cells[ts.id] = StructVal('TimeSeries', {**f, '_data': x, '_tsamp': R(tsamp)})
            return None
        m = ORef(E.new(StructVal(md.tname, {**md.f, '__dict__': d})))
        return ORef(E.new(StructVal('TimeSeries', {**f, '_data': x, '_tsamp': R(tsamp), 'metadata': m})))
    def call_pre(s, E): pass

@spec
class TSNormalise(TSOp):
    key = 'riptide.time_series.TimeSeries.normalise'
    def args(s, E):
        E.ctx.assume(pylib.var1(E, s.r, s.n) > 0)
        return [], {}
    def bind(s, E, b): pass
    def call_pre(s, E): pass
    def expected(s, E):
        m, v = pylib.mean1(E, s.r, s.n), pylib.var1(E, s.r, s.n)
        return s.n, (lambda i: (R(s.r(i)) - m) / fsqrt(v)), s.tsamp

@spec
class TSDeredden(TSOp):
    key = 'riptide.time_series.TimeSeries.deredden'
    cases = ['out of place', 'in place', 'default', 'minpts given']
    def args(s, E):
        s.width = real(E, 'width', 0)
        s.ws = pylib.pyround(s.width / s.tsamp); s.mp = I(101)
        E.ctx.assume(s.ws >= 1); E.ctx.assume(scrunch_factor(s.ws, s.mp) <= s.n)
        return [s.width], {}
    def setup(s, E, case):
        a, kw = super().setup(E, case)
        if case == 'minpts given':
            s.mp = nat(E, 'minpts', 1); kw['minpts'] = s.mp
            E.ctx.assume(scrunch_factor(s.ws, s.mp) <= s.n)
        return a, kw
    def bind(s, E, b):
        s.width = R(E.num(b['width'])); s.ws = pylib.pyround(s.width / s.tsamp); s.mp = E.num(b['minpts'])
    def call_pre(s, E): E.ctx.oblige('deredden: window of at least one sample', z3.And(s.ws >= 1, s.mp >= 1), 'pre')
    def raises(s, E, a, case): return fast_bad(s.n, s.ws, s.mp)
    def expected(s, E):
        sc = scrunch_factor(s.ws, s.mp); i0 = sc == 1
        f = fast_rmed(s.r, s.n, s.ws, s.mp, sc)
        return s.n, (lambda i: R(s.r(i)) - z3.If(i0, R(pylib.rmed_val(s.r, s.n, s.ws, I(i))), f(i))), s.tsamp

@spec
class TSDownsample(TSOp):
    key = 'riptide.time_series.TimeSeries.downsample'
    def args(s, E):
        s.f = E.ctx.fresh('factor', 'Real'); return [s.f], {}
    def bind(s, E, b): s.f = R(E.num(b['factor']))
    def raises(s, E, a, case): return SC.bad_factor(s.n, s.f)
    def expected(s, E): return ffloor(R(s.n) / s.f), down_val(E, s.r, s.n, s.f), s.tsamp * s.f

@spec
class TSInit(PySpec):
    key = 'riptide.time_series.TimeSeries.__init__'
    has_effect = False
    cases = ['float64 data, metadata', 'float32 data', 'copy', 'integer data']
    def setup(s, E, case):
        s.n = nat(E, 'n', 1); s.tsamp = real(E, 'tsamp', 0)
        dt = 'float64' if 'float64' in case else 'int64' if 'integer' in case else 'float32'
        s.x = sarr(E, 'x', [s.n], 'Int' if dt == 'int64' else 'Real', dt); s.r = E.reader(s.x)
        cls = E.modval(load(E.repo, 'riptide.time_series'), 'TimeSeries')
        s.ts = ORef(E.new(StructVal('TimeSeries', {'__class__': cls})))
        kw = {}; s.md = None
        if 'metadata' in case: s.md = mk_metadata(E, tobs=real(E, 'oldtobs', 0)); kw['metadata'] = s.md
        if case == 'copy': kw['copy'] = True
        return [s.ts, s.x, s.tsamp], kw
    def post(s, E, a, r, s0, case):
        md0 = s0[0][s.md.id].f['__dict__'] if s.md is not None else DCT(0, {k: None for k in MD_KEYS})
        ts_post(E, s.label + ': the object', s.ts, s.n, lambda i: R(E.num(s.r(i))), s.tsamp, md0)
        f = E.cells[s.ts.id].f
        if s.md is not None and isinstance(f.get('metadata'), ORef):
            E.ctx.oblige(s.label + ': the metadata are a copy', z3.BoolVal(f['metadata'].id != s.md.id), 'post')
            E.ctx.oblige(s.label + ': the given metadata are unchanged', z3.BoolVal(E.cells[s.md.id] is s0[0][s.md.id] or same(E.cells[s.md.id], s0[0][s.md.id])), 'frame')
        if case == 'copy' and isinstance(f.get('_data'), ND): E.ctx.oblige(s.label + ': the data are copied', z3.BoolVal(f['_data'].buf != s.x.buf), 'post')
    def frame(s, E, a): return [('the given array', s.x)]

# ------------------------------------------------------------------ C10
def sums_fn(E, x, n, f):
    """integral of x over the k-th interval of length f, x constant on [i, i+1)"""
    return lambda k: SC.integral(E, x, n, (R(k) + 1) * f) - SC.integral(E, x, n, R(k) * f)
@spec
class DownVert(PySpec):
    key = 'riptide.folding.downsample_vertical'
    def setup(s, E, case):
        s.m, s.p = nat(E, 'm', 1), nat(E, 'p', 1); s.f = E.ctx.fresh('f', 'Real')
        s.x = sarr(E, 'X', [s.m, s.p], 'Real', 'float32'); s.r = E.reader(s.x)
        return [s.x, s.f], {}
    def raises(s, E, a, case): return z3.Not(z3.And(s.f > 1, s.f < R(s.m)))
    def post(s, E, a, r, s0, case):
        arr_post(E, s.label + ': result', r, [ffloor(R(s.m) / s.f), s.p], lambda k, j: sums_fn(E, lambda i: s.r(i, j), s.m, s.f)(k), 'float32')
    def frame(s, E, a): return [('the input', s.x)]
    def effect(s, E, b):
        x, f = E.thaw(b['X']), R(E.num(b['factor']))
        if len(x.shape) != 2: raise CThrow('ValueError')
        m, p = x.shape; r = E.reader(x)
        if not E.decide(z3.And(f > 1, f < R(m))): raise CThrow('ValueError')
        E.ctx.oblige('downsample_vertical: at least one column', p >= 1, 'pre')
        return E.arr([ffloor(R(m) / f), p], lambda k, j: sums_fn(E, lambda i: r(i, I(j)), m, f)(I(k)), 'float32')

@spec
class Fold(PySpec):
    key = 'riptide.folding.fold'
    cases = ['no subints', 'subints', 'default']
    has_effect = False
    def setup(s, E, case):
        s.ts = mk_ts(E); f = E.cells[s.ts.id].f
        s.f0 = f; s.x = f['_data']; s.N = s.x.shape[0]; s.tsamp = f['_tsamp']; s.md = f['metadata']; s.r = E.reader(s.x)
        # every positive period is factor * bins * tsamp for exactly one factor
        s.f = real(E, 'factor', 0); s.b = nat(E, 'bins', 1); s.P = simp(s.f * R(s.b) * s.tsamp)
        s.sub = E.ctx.fresh('subints') if case == 'subints' else None
        s.n = ffloor(R(s.N) / s.f); s.m = idiv(s.n, s.b)
        ctx = E.ctx; N, b, f, t = R(s.N), R(s.b), s.f, s.tsamp
        known(E, 'positive denominators', z3.And(f * b > 0, b * t > 0, f * t > 0, f * b * t > 0))
        known(E, 'period and length in samples', (f * b * t > N * t) == (f * b > N))
        known(E, 'bin width in samples', (f * t <= t) == (f <= 1))
        known(E, 'number of bins in the data', z3.Implies(f * b <= N, N / f >= b))
        known(E, 'whole bins', z3.Implies(f * b <= N, s.n >= s.b))
        known(E, 'whole periods', z3.Implies(f * b <= N, s.m >= 1))
        kw = {} if case == 'default' else {'subints': s.sub}
        return [s.ts, s.P, s.b], kw
    def raises(s, E, a, case):
        # period > length, bin width <= sampling time
        c = z3.Or(s.f * R(s.b) > R(s.N), s.f <= 1)
        if s.sub is not None: c = z3.Or(c, s.sub < 1, s.sub > s.m, R(s.sub) > R(s.N) / (s.f * R(s.b)))
        return c
    def post(s, E, a, r, s0, case):
        ctx = E.ctx
        d = down_val(E, s.r, s.N, s.f); sc = 1 / fsqrt(R(s.m) * s.f)
        val = lambda i, j: sc * d(simp(I(i) * s.b + I(j)))
        col = lambda j: ssum(lambda i: val(i, j), I(0), s.m)
        nd = len(r.shape) if isinstance(r, ND) else 0
        flat_ = s.m == 1 if s.sub is None else z3.Or(s.sub == 1, s.m == 1)
        ctx.oblige(s.label + ': one-dimensional result exactly when specified', flat_ if nd == 1 else z3.Not(flat_), 'post')
        if nd == 1: arr_post(E, s.label + ': profile', r, [s.b], col, 'float32'); return
        if s.sub is None or E.ctx.quick(s.sub == s.m): arr_post(E, s.label + ': sub-integrations', r, [s.m, s.b], val, 'float32'); return
        ctx.oblige(s.label + ': fewer sub-integrations than periods', z3.And(1 < s.sub, s.sub < s.m), 'post')
        vf = R(s.m) / R(s.sub)
        arr_post(E, s.label + ': sub-integrations', r, [s.sub, s.b], lambda k, j: sums_fn(E, lambda i: val(i, j), s.m, vf)(k), 'float32')
    def frame(s, E, a): return [('the data', s.x)]
    def post_throw(s, E, a, s0, case, label): ts_unchanged(E, label + ': the time series', s.ts, s0, s.x, s.f0, s.md)

# ------------------------------------------------------------------ C12
def within(E, hyps, f):
    """run f under additional hypotheses"""
    n = len(E.ctx.pc)
    for h in hyps: E.ctx.assume(h)
    try: return f()
    finally: del E.ctx.pc[n:]; del E.ctx.pck[n:]
@spec
class Cluster1d(PySpec):
    key = 'riptide.clustering.cluster1d'
    cases = ['unsorted', 'declared sorted', 'default']
    def setup(s, E, case):
        s.n = nat(E, 'n', 0); s.r_ = E.ctx.fresh('r', 'Real')
        s.x = sarr(E, 'x', [s.n]); s.r = E.reader(s.x)
        kw = {} if case == 'default' else {'already_sorted': case == 'declared sorted'}
        return [s.x, s.r_], kw
    def post(s, E, a, r, s0, case):
        ctx, n, lab = E.ctx, s.n, s.label
        if not isinstance(r, LST): return bad(E, lab + ': result is a list')
        K = r.n
        ctx.oblige(lab + ': no clusters exactly when there are no points', (K == 0) == (n == 0), 'post')
        if E.ctx.quick(n == 0): return
        if case == 'declared sorted': P = Q = lambda i: I(i)
        else: P, Q = pylib.perm_facts(E, n, lambda u: R(s.r(u)), False)
        gap = lambda p: pylib.pyabs(E, simp(R(s.r(P(p + 1))) - R(s.r(P(p)))))
        def cl(c):
            e = E.thaw(r.at(c, ctx))
            if not isinstance(e, ND) or len(e.shape) != 1: return None
            return e.shape[0], E.reader(e), E.dtype(e)
        c, t = ctx.fresh('c'), ctx.fresh('t')
        def go():
            k = cl(c)
            if k is None: return bad(E, lab + ': clusters are one-dimensional arrays')
            L, rd, dt = k
            ctx.oblige(lab + ': clusters hold integer indices', z3.BoolVal(dt.startswith('i') or dt.startswith('u')), 'post')
            ctx.oblige(lab + ': no cluster is empty', L >= 1, 'post')
            def inside():
                ctx.oblige(lab + ': cluster members are indices', z3.And(0 <= rd(t), rd(t) < n), 'post')
            within(E, [0 <= t, t < L], inside)
            def nxt():
                p = Q(rd(t))
                ctx.oblige(lab + ': members follow each other in sorted order', Q(rd(t + 1)) == p + 1, 'post')
                ctx.oblige(lab + ': no gap above the radius inside a cluster', gap(p) <= s.r_, 'post')
            within(E, [0 <= t, t + 1 < L], nxt)
            def border():
                L2, rd2, _ = cl(c + 1)
                p = Q(rd(L - 1))
                ctx.oblige(lab + ': the next cluster continues in sorted order', Q(rd2(I(0))) == p + 1, 'post')
                ctx.oblige(lab + ': the gap between two clusters exceeds the radius', gap(p) > s.r_, 'post')
            within(E, [c + 1 < K], border)
            within(E, [c == 0], lambda: ctx.oblige(lab + ': the first cluster begins with the smallest point', Q(rd(I(0))) == 0, 'post'))
            within(E, [c + 1 == K], lambda: ctx.oblige(lab + ': the last cluster ends with the largest point', Q(rd(L - 1)) == n - 1, 'post'))
        within(E, [0 <= c, c < K], go)
    def frame(s, E, a): return [('the input', s.x)]
    has_effect = False

import dv.pyspecs2
import dv.pyspecs3
import dv.pyspecs4
import dv.pyspecs5
import dv.pyspecs6
