"""Contracts of the C++ kernels in /repo/riptide/cpp (namespace riptide)."""
import z3
from dv.core import *
from dv.machine import *
from dv.cxx import *
from dv.contract import *

MAXLEN = 2**48      # assumption: no array has 2^48 or more elements

def nat(m, name, lo=0):
    x = m.ctx.fresh(name); m.ctx.assume(z3.And(x >= lo, x < MAXLEN)); return x

def buf(m, name, lo, n, sort='Real', ini=True):
    """pointer into an array: n elements are available from offset off (arbitrary surrounding elements)"""
    ctx = m.ctx
    off = nat(m, name + '_off'); tot = ctx.fresh(name + '_len')
    ctx.assume(z3.And(tot >= off + n, tot < MAXLEN))
    return Ptr(m.sym_arr(name, tot, sort, ini), off)

def inb(m, p, n):
    a = m.arrs[p.obj]
    return z3.Implies(I(n) > 0, z3.And(0 <= p.off, p.off + I(n) <= a.n))

def distinct(*ps):
    objs = [p.obj for p in ps]
    return z3.BoolVal(len(set(objs)) == len(objs))

def content(m, p):
    """content function relative to the pointer"""
    a = m.arrs[p.obj]
    return lambda i: a.sel(simp(p.off + I(i)), m.ctx)

class FusedRollbackAdd(Contract):
    key = 'fused_rollback_add/5'
    def setup(s, m):
        n = nat(m, 'size'); sh = nat(m, 'shift')
        return [buf(m, 'x', 0, n), buf(m, 'y', 0, n), n, sh, buf(m, 'z', 0, n, ini=False)]
    def pre(s, m, a):
        x, y, n, sh, z = a
        return [('size > 0', n > 0), ('x in bounds', inb(m, x, n)), ('y in bounds', inb(m, y, n)), ('z in bounds', inb(m, z, n)),
                ('z distinct from x', distinct(x, z)), ('z distinct from y', distinct(y, z))]
    def effect(s, m, a):
        x, y, n, sh, z = a; X, Y = content(m, x), content(m, y)
        m.arrs[z.obj] = m.arrs[z.obj].write(z.off, z.off + n, lambda o: X(o - z.off) + Y(imod(o - z.off + sh, n)))

class Rollback(Contract):
    key = 'rollback/4'
    def setup(s, m):
        n = nat(m, 'size'); sh = nat(m, 'shift')
        return [buf(m, 'x', 0, n), n, sh, buf(m, 'out', 0, n, ini=False)]
    def pre(s, m, a):
        x, n, sh, z = a
        return [('size > 0', n > 0), ('x in bounds', inb(m, x, n)), ('out in bounds', inb(m, z, n)), ('out distinct from x', distinct(x, z))]
    def effect(s, m, a):
        x, n, sh, z = a; X = content(m, x)
        m.arrs[z.obj] = m.arrs[z.obj].write(z.off, z.off + n, lambda o: X(imod(o - z.off + sh, n)))

class CircularPrefixSum(Contract):
    key = 'circular_prefix_sum/4'
    def setup(s, m):
        n = nat(m, 'size', 1); ns = nat(m, 'nsum')
        return [buf(m, 'x', 0, n), n, ns, buf(m, 'out', 0, ns, ini=False)]
    def pre(s, m, a):
        x, n, ns, z = a
        return [('size > 0', n > 0), ('x in bounds', inb(m, x, n)), ('out in bounds', inb(m, z, ns)), ('out distinct from x', distinct(x, z))]
    def effect(s, m, a):
        x, n, ns, out = a; X = content(m, x)
        S = lambda e: m.sum(X, 0, e)
        m.arrs[out.obj] = m.arrs[out.obj].write(out.off, out.off + ns, lambda o: S(simp(imod(o - out.off, n) + 1)) + toreal(idiv(o - out.off, n)) * S(n))

class Transform(Contract):
    """FFA of a block; temp is scratch"""
    key = 'transform/3'
    def blk(s, t, p, r, c): return StructVal('BlockTemplate<%s>' % t, {'data': p, 'rows': r, 'cols': c})
    def setup(s, m):
        r = nat(m, 'rows'); c = nat(m, 'cols')
        n = m.ctx.fresh('cells'); m.ctx.assume(n == r * c)
        return [s.blk('const float', buf(m, 'input', 0, n), r, c), s.blk('float', buf(m, 'temp', 0, n, ini=False), r, c), s.blk('float', buf(m, 'out', 0, n, ini=False), r, c)]
    def pre(s, m, a):
        i, t, o = a
        r, c = i.f['rows'], i.f['cols']
        return [('at least one row', r >= 1), ('at least one column', c >= 1),
                ('temp has the shape of input', z3.And(t.f['rows'] == r, t.f['cols'] == c)), ('out has the shape of input', z3.And(o.f['rows'] == r, o.f['cols'] == c)),
                ('input in bounds', inb(m, i.f['data'], r * c)), ('temp in bounds', inb(m, t.f['data'], r * c)), ('out in bounds', inb(m, o.f['data'], r * c)),
                ('buffers are distinct', distinct(i.f['data'], t.f['data'], o.f['data']))]
    def measure(s, m, a): return a[0].f['rows']
    def effect(s, m, a):
        i, t, o = a
        r, c = i.f['rows'], i.f['cols']; ctx = m.ctx
        ip, tp, op = i.f['data'], t.f['data'], o.f['data']
        X = m.arrs[ip.obj]
        n = simp(r * c)
        h = ctx.freshfn('tmp', ['Int'], 'Real'); hi = ctx.freshfn('tmpi', ['Int'], 'Bool')
        T = m.arrs[tp.obj]
        m.arrs[tp.obj] = T.write(tp.off, tp.off + n, lambda q: h(q), lambda q: z3.Or(T.sel(q, ini=True), hi(q)), kind='havoc')
        hsel = lambda q: m.under([ip.off <= q, q < ip.off + n], lambda: X.sel(q, ctx))
        m.arrs[op.obj] = m.arrs[op.obj].write(op.off, op.off + n, lambda q: ffa(hsel, ip.off, r, c, idiv(q - op.off, c), imod(q - op.off, c)))

class TransformRaw(Contract):
    """FFA of a raw buffer"""
    key = 'transform/5'
    def setup(s, m):
        r = nat(m, 'rows'); c = nat(m, 'cols')
        n = m.ctx.fresh('cells'); m.ctx.assume(n == r * c)
        return [buf(m, 'input', 0, n), r, c, buf(m, 'temp', 0, n, ini=False), buf(m, 'out', 0, n, ini=False)]
    def T(s, a):
        i, r, c, t, o = a
        return [Transform().blk('const float', i, r, c), Transform().blk('float', t, r, c), Transform().blk('float', o, r, c)]
    def pre(s, m, a): return Transform().pre(m, s.T(a))
    def effect(s, m, a):
        Transform().effect(m, s.T(a))
        return s.T(a)[2]

# ------------------------------------------------------------------ downsampling
def fracpos(t):
    """(floor t, t - floor t)"""
    i = ffloor(t)
    return i, R(t) - toreal(i)

def integral(m, X, N, t):
    """integral over [0, t] of the step function X(i) on [i, i+1), X = 0 beyond N"""
    i, fr = fracpos(t)
    return m.sum(X, 0, i) + z3.If(i < N, fr * X(i), R(0))

def bad_factor(n, f): return z3.Not(z3.And(R(f) > 1, R(f) <= R(n)))

class Downsample(Contract):
    key = 'downsample/4'
    def setup(s, m):
        n = nat(m, 'size'); f = m.ctx.fresh('f', 'Real')
        # the caller provides floor(size / f) output elements when the factor is valid
        k = m.ctx.fresh('outcap'); m.ctx.assume(z3.And(k >= 0, k < MAXLEN))
        m.ctx.assume(z3.Implies(z3.Not(bad_factor(n, f)), k >= dsize(m, n, f)))
        return [buf(m, 'in', 0, n), n, f, buf(m, 'out', 0, k, ini=False)]
    def raises(s, m, a): return bad_factor(a[1], a[2])
    def pre(s, m, a):
        x, n, f, z = a
        ok = z3.Not(bad_factor(n, f))
        return [('in in bounds', inb(m, x, n)), ('out in bounds', z3.Implies(ok, inb(m, z, dsize(m, n, f)))), ('out distinct from in', distinct(x, z))]
    def effect(s, m, a):
        x, n, f, out = a; X = content(m, x)
        def g(o):
            k = R(o - out.off)
            return integral(m, X, n, (k + 1) * f) - integral(m, X, n, k * f)
        m.arrs[out.obj] = m.arrs[out.obj].write(out.off, out.off + dsize(m, n, f), g)

def dsize(m, n, f):
    """number of output samples: floor(n/f), computed in double precision"""
    return ffloor(m.rnd(R(n) / R(f), 64))

# ------------------------------------------------------------------ S/N
def boxcar(b, w):
    """height and baseline of the zero-mean unit-square boxcar of w bins out of b"""
    b, w = R(b), R(w)
    h = fsqrt((b - w) / (b * w))
    return h, h * w / (b - w)

def cps(m, X, n, e):
    """sum of the first e+1 elements of X repeated circularly with period n"""
    S = lambda q: m.sum(X, 0, q)
    return S(simp(imod(e, n) + 1)) + toreal(idiv(e, n)) * S(n)

def window(m, X, n, w, j):
    """sum of the w samples that start at phase j"""
    return cps(m, X, n, simp(j + w - 1)) - cps(m, X, n, simp(j - 1))

def boxcar_snr(m, X, n, w, sd):
    """best response over all phases of the zero-mean unit-square boxcar of w bins; the response at
    phase j, (h*win(j) - g*(tot - win(j))) / sd, increases with win(j) (lemma 'response is increasing')"""
    h, g = boxcar(n, w)
    tot = m.sum(X, 0, n)
    best = m.max(lambda j: window(m, X, n, w, j), 0, n)
    return ((h + g) * best - g * tot) / sd

def boxcar_lemmas(ctx):
    """the spec filter has zero mean, unit square sum, positive h and g, and the response is an increasing
    function of the sum in the window (so that the maximum response is the response of the maximum)"""
    b, w = ctx.fresh('b'), ctx.fresh('w')
    sd, x, y, t = [ctx.fresh(n, 'Real') for n in ('sd', 'x', 'y', 'tot')]
    ctx.assume(z3.And(0 < w, w < b, sd > 0))
    h, g = boxcar(b, w)
    ctx.oblige('lemma: boxcar height and baseline are positive', z3.And(h > 0, g > 0), 'lemma')
    ctx.oblige('lemma: boxcar has zero mean', h * R(w) == g * R(b - w), 'lemma')
    # unit square sum: h and g as constants with the facts just proved and the defining equation of the root
    ctx.oblige('lemma: height equation', h * h * (R(b) * R(w)) == R(b) - R(w), 'lemma')
    H, G_, B, W = [ctx.fresh(n, 'Real') for n in 'HGBW']
    hyp = z3.And(0 < W, W < B, H > 0, G_ > 0, H * W == G_ * (B - W), H * H * (B * W) == B - W)
    ctx.oblige('lemma: unit square sum, step 1', z3.Implies(hyp, (H + G_) * (B - W) == H * B), 'lemma')
    ctx.oblige('lemma: unit square sum, step 2', z3.Implies(z3.And(hyp, (H + G_) * (B - W) == H * B), H * W * ((H + G_) * (B - W)) == B - W), 'lemma')
    ctx.oblige('lemma: unit square sum, step 3', z3.Implies(z3.And(B - W > 0, (H * W * (H + G_)) * (B - W) == B - W), H * W * (H + G_) == 1), 'lemma')
    ctx.oblige('lemma: unit square sum, step 4', z3.Implies(hyp, H * H * W + G_ * G_ * (B - W) == H * W * (H + G_)), 'lemma')
    F = lambda v: (h * v - g * (t - v)) / sd
    ctx.oblige('lemma: the response is ((h + g) * window - g * total) / noise', F(x) == ((h + g) * x - g * t) / sd, 'lemma')
    hh, gg = ctx.fresh('h', 'Real'), ctx.fresh('g', 'Real')
    G = lambda v: ((hh + gg) * v - gg * t) / sd
    ctx.oblige('lemma: the response is increasing in the window sum', z3.Implies(z3.And(hh > 0, gg > 0, x <= y), G(x) <= G(y)), 'lemma')

class Snr1(Contract):
    key = 'snr1/6'
    def setup(s, m):
        n = nat(m, 'size', 1); nw = nat(m, 'num_widths', 1)
        W = buf(m, 'widths', 0, nw, 'Int')
        sd = m.ctx.fresh('stdnoise', 'Real')
        return [buf(m, 'arr', 0, n), n, W, nw, sd, buf(m, 'out', 0, nw, ini=False)]
    def pre(s, m, a):
        x, n, W, nw, sd, out = a
        return [('at least one width', nw > 0), ('profile in bounds', inb(m, x, n)), ('widths in bounds', inb(m, W, nw)), ('out in bounds', inb(m, out, nw)),
                ('stdnoise > 0', sd > 0), ('output distinct from inputs', distinct(x, out, W)),
                ('every width is > 0 and < size', ForAll(m.arrs[W.obj], W.off, W.off + nw, lambda v, i: z3.And(v > 0, v < n)))]
    def effect(s, m, a):
        x, n, W, nw, sd, out = a
        X, Wc = content(m, x), content(m, W)
        m.arrs[out.obj] = m.arrs[out.obj].write(out.off, out.off + nw, lambda o: boxcar_snr(m, X, n, Wc(simp(o - out.off)), sd))

class Snr2(Contract):
    key = 'snr2/5'
    def setup(s, m):
        r = nat(m, 'rows'); n = nat(m, 'cols', 1); nw = nat(m, 'num_widths', 1)
        c = m.ctx.fresh('cells'); m.ctx.assume(c == r * n)
        oc = m.ctx.fresh('outcells'); m.ctx.assume(oc == r * nw)
        return [Transform().blk('const float', buf(m, 'block', 0, c), r, n), buf(m, 'widths', 0, nw, 'Int'), nw, m.ctx.fresh('stdnoise', 'Real'), buf(m, 'out', 0, oc, ini=False)]
    def pre(s, m, a):
        b, W, nw, sd, out = a
        r, n, x = b.f['rows'], b.f['cols'], b.f['data']
        return [('at least one width', nw > 0), ('profiles in bounds', inb(m, x, r * n)), ('widths in bounds', inb(m, W, nw)), ('out in bounds', inb(m, out, r * nw)),
                ('stdnoise > 0', sd > 0), ('output distinct from inputs', distinct(x, out, W)),
                ('every width is > 0 and < size', ForAll(m.arrs[W.obj], W.off, W.off + nw, lambda v, i: z3.And(v > 0, v < n)))]
    def effect(s, m, a):
        b, W, nw, sd, out = a
        r, n, x = b.f['rows'], b.f['cols'], b.f['data']
        Wc = content(m, W); X = content(m, x)
        def g(o):
            d = z3.simplify(o - out.off, som=True)
            i = idiv(d, nw); j = imod(d, nw)
            return boxcar_snr(m, lambda e: X(simp(i * n + e)), n, Wc(j), sd)
        m.arrs[out.obj] = m.arrs[out.obj].write(out.off, out.off + simp(r * nw), g)

ALL = [FusedRollbackAdd, Rollback, CircularPrefixSum, Transform, TransformRaw, Downsample, Snr1, Snr2]

# ------------------------------------------------------------------ Python bindings (namespace riptide__b is the content of python_bindings.cpp)
class Res:
    """specified result array: shape and content"""
    def __init__(self, shape, g): self.shape, self.g = [I(x) for x in shape], g

class Binding(Contract):
    ns = 'riptide__b'
    def results(s, m, a): raise NotImplementedError
    def result_post(s, m, a, r, s0, end):
        ctx = m.ctx
        want = s.results(m, a)
        got = list(r) if isinstance(r, tuple) else [r]
        m.restore(end)
        if len(got) != len(want):
            ctx.oblige('%s: number of results' % s.key, z3.BoolVal(False), 'post'); return
        for i, (g, w) in enumerate(zip(got, want)):
            nm = '%s: result%s' % (s.key, ' %d' % i if len(want) > 1 else '')
            if not isinstance(g, StructVal) or g.tname != 'pyarray':
                ctx.oblige(nm + ' is an array', z3.BoolVal(False), 'post'); continue
            ctx.oblige(nm + ': dimensions', g.f['ndim'] == len(w.shape), 'post')
            ctx.oblige(nm + ': shape', z3.And(*[g.f['s%d' % k] == d for k, d in enumerate(w.shape)]), 'post')
            n = w.shape[0]
            for d in w.shape[1:]: n = n * d
            o = ctx.fresh('o'); n0 = len(ctx.pc)
            ctx.assume(z3.And(0 <= o, o < simp(n)))
            a_ = m.arrs[g.f['ptr'].obj]
            if not m.fully_init(a_): ctx.oblige(nm + ': every element has been written', a_.sel(simp(g.f['ptr'].off + o), ctx, ini=True), 'init')
            if not getattr(m, 'no_values', False): ctx.oblige(nm + ': contents', a_.sel(simp(g.f['ptr'].off + o), ctx) == w.g(o), 'post')
            del ctx.pc[n0:]; del ctx.pck[n0:]
        for i in s0[1]:
            if s0[1][i] is not end[1][i]: ctx.oblige('%s: argument array %s is not modified' % (s.key, s0[1][i].name), z3.BoolVal(False), 'frame')

def pcontent(m, v):
    a = m.arrs[v.f['ptr'].obj]; p = v.f['ptr']
    return lambda i: a.sel(simp(p.off + I(i)), m.ctx)

def bad1(v): return z3.Or(z3.Not(v.f['contig']), v.f['ndim'] != 1, v.f['size'] == 0)
def bad2(v): return z3.Or(z3.Not(v.f['contig']), v.f['ndim'] != 2, v.f['s0'] == 0, v.f['s1'] == 0)
def lim(m, *vs):
    for v in vs: m.ctx.assume(z3.And(v.f['size'] < MAXLEN, v.f['s0'] < MAXLEN, v.f['s1'] < MAXLEN))
    return list(vs)

class BRollback(Binding):
    key = 'rollback/2'
    def setup(s, m): return lim(m, m.new_pyarray('x')) + [nat(m, 'shift')]
    def raises(s, m, a): return bad1(a[0])
    def results(s, m, a):
        x, sh = a; X = pcontent(m, x); n = x.f['s0']
        return [Res([n], lambda o: X(imod(o + sh, n)))]

class BFused(Binding):
    key = 'fused_rollback_add/3'
    def setup(s, m): return lim(m, m.new_pyarray('x'), m.new_pyarray('y')) + [nat(m, 'shift')]
    def raises(s, m, a): return z3.Or(bad1(a[0]), bad1(a[1]), a[0].f['size'] != a[1].f['size'])
    def results(s, m, a):
        x, y, sh = a; X = pcontent(m, x); Y = pcontent(m, y); n = x.f['s0']
        return [Res([n], lambda o: X(o) + Y(imod(o + sh, n)))]

class BCps(Binding):
    key = 'circular_prefix_sum/2'
    def setup(s, m): return lim(m, m.new_pyarray('x')) + [nat(m, 'nsum')]
    def raises(s, m, a): return z3.Or(bad1(a[0]), a[1] == 0)
    def results(s, m, a):
        x, ns = a; X = pcontent(m, x); n = x.f['s0']
        return [Res([ns], lambda o: cps(m, X, n, o))]

class BFfa2(Binding):
    key = 'ffa2/1'
    def setup(s, m): return lim(m, m.new_pyarray('x'))
    def raises(s, m, a): return bad2(a[0])
    def results(s, m, a):
        x = a[0]; X = pcontent(m, x); r, c = x.f['s0'], x.f['s1']
        return [Res([r, c], lambda o: ffa(X, 0, r, c, idiv(o, c), imod(o, c)))]

def bad_widths(m, w, b):
    """there are no widths, or some width is not in (0, b)"""
    W = m.arrs[w.f['ptr'].obj]; n = w.f['s0']
    bad = m.ctx.fresh('badw', 'Bool'); i = m.ctx.fresh('iw')
    m.ctx.assume(z3.Implies(bad, z3.And(0 <= i, i < n, z3.Not(z3.And(W.sel(i) > 0, W.sel(i) < b)))))
    m.forall_fact(W, I(0), n, lambda v, j: z3.Implies(z3.Not(bad), z3.And(v > 0, v < b)))
    m.ctx.assume(z3.Implies(z3.And(n > 0, z3.Not(bad)), z3.And(W.sel(I(0)) > 0, W.sel(I(0)) < b)))     # instance at 0
    return bad

class BSnr1(Binding):
    key = 'snr1/3'
    def setup(s, m):
        x, w = lim(m, m.new_pyarray('x'), m.new_pyarray('widths', sort='Int'))
        s.bad = bad_widths(m, w, x.f['s0'])
        return [x, w, m.ctx.fresh('stdnoise', 'Real')]
    def raises(s, m, a): return z3.Or(bad1(a[0]), bad1(a[1]), s.bad, z3.Not(a[2] > 0))
    def results(s, m, a):
        x, w, sd = a; X, W = pcontent(m, x), pcontent(m, w); n = x.f['s0']
        return [Res([w.f['s0']], lambda o: boxcar_snr(m, X, n, W(o), sd))]

class BSnr2(Binding):
    key = 'snr2/3'
    def setup(s, m):
        x, w = lim(m, m.new_pyarray('x'), m.new_pyarray('widths', sort='Int'))
        s.bad = bad_widths(m, w, x.f['s1'])
        return [x, w, m.ctx.fresh('stdnoise', 'Real')]
    def raises(s, m, a): return z3.Or(bad2(a[0]), bad1(a[1]), s.bad, z3.Not(a[2] > 0))
    def results(s, m, a):
        x, w, sd = a; X, W = pcontent(m, x), pcontent(m, w); r, n, nw = x.f['s0'], x.f['s1'], w.f['s0']
        def g(o):
            i = idiv(o, nw); j = imod(o, nw)
            return boxcar_snr(m, lambda e: X(simp(i * n + e)), n, W(j), sd)
        return [Res([r, nw], g)]

class BDownsample(Binding):
    key = 'downsample/2'
    def setup(s, m): return lim(m, m.new_pyarray('x')) + [m.ctx.fresh('f', 'Real')]
    def raises(s, m, a): return z3.Or(bad1(a[0]), bad_factor(a[0].f['s0'], a[1]))
    def results(s, m, a):
        x, f = a; X = pcontent(m, x); n = x.f['s0']
        return [Res([dsize(m, n, f)], lambda o: integral(m, X, n, (R(o) + 1) * f) - integral(m, X, n, R(o) * f))]

BALL = [BRollback, BFused, BCps, BFfa2, BSnr1, BSnr2, BDownsample]

# ------------------------------------------------------------------ periodogram: argument checks, noise model, number of trials of a block
class CheckFactor(Contract):
    key = 'check_downsampling_factor/2'
    def setup(s, m): return [nat(m, 'size'), m.ctx.fresh('f', 'Real')]
    def raises(s, m, a): return bad_factor(a[0], a[1])

class DownsampledSize(Contract):
    key = 'downsampled_size/2'
    def setup(s, m):
        n, f = nat(m, 'num_samples'), m.ctx.fresh('f', 'Real')
        return [n, f]
    def pre(s, m, a): return [('factor >= 1', R(a[1]) >= 1)]
    def effect(s, m, a): return dsize(m, a[0], a[1])

class DownsampledVariance(Contract):
    """variance of the noise after downsampling by f: with k = floor f, r = f - k, and x = n r the range
    of the start phases of the n output samples (relative to input samples), averaged over the phases"""
    key = 'downsampled_variance/2'
    def setup(s, m):
        n, f = nat(m, 'num_samples'), m.ctx.fresh('f', 'Real')
        return [n, f]
    def pre(s, m, a): return [('factor >= 1', R(a[1]) >= 1)]
    def effect(s, m, a):
        n, f = a
        k, r = fracpos(f)
        x = toreal(dsize(m, n, f)) * r
        return z3.If(x > 1, R(f) - z3.RealVal(1) / 3, toreal(k) - x + 2 * x * x / 3)

def bad_search(a):
    n, ts, p0, p1, b0, b1 = a
    return z3.Or(ts <= 0, p0 <= 0, p1 <= p0, b0 <= 1, b1 < b0, p0 < ts * R(b0))

class CheckArguments(Contract):
    key = 'periodogram_check_arguments/6'
    def setup(s, m):
        c = m.ctx
        return [nat(m, 'size')] + [c.fresh(n, 'Real') for n in ('tsamp', 'period_min', 'period_max')] + [nat(m, 'bins_min'), nat(m, 'bins_max')]
    def raises(s, m, a): return bad_search(a)

class CeilShift(Contract):
    """number of rows of a block with trial period below pmax (in samples): a row s is among them if and
    only if its period cols^2 / (cols - s / (rows - 1)) is below pmax"""
    key = 'ceilshift/3'
    def setup(s, m): return [nat(m, 'rows', 1), nat(m, 'cols', 1), m.ctx.fresh('pmax', 'Real')]
    def pre(s, m, a):
        r, c, p = a
        return [('at least one row', r >= 1), ('at least one column', c >= 1), ('pmax >= cols', R(p) >= R(c)), ('pmax <= cols + 1', R(p) <= R(c) + 1)]
    def effect(s, m, a):
        r, c, p = a
        q = lambda x: m.rnd0(x, 64)
        return fceil(q(q(R(c) * q(R(r) - 1)) * q(1 - q(R(c) / R(p)))))

def ceilshift_lemmas(ctx):
    """the rows below ceilshift are exactly those whose trial period is below pmax, the trial periods increase with the row,
    and start at cols samples"""
    s, t = ctx.fresh('s'), ctx.fresh('t')
    r, b, p = ctx.fresh('rows'), ctx.fresh('cols'), ctx.fresh('pmax', 'Real')
    ctx.assume(z3.And(r >= 2, b >= 2, R(p) >= R(b), p <= R(b) + 1, 0 <= s, s < r, s < t, t < r))
    S, Rr, B = R(s), R(r), R(b)
    x, q, C, P = [ctx.fresh(n, 'Real') for n in ('x', 'q', 'C', 'P')]
    # x = s / (rows - 1) in [0, 1]
    ctx.oblige('lemma: the shift is a fraction of a bin', z3.And(0 <= S / (Rr - 1), S / (Rr - 1) <= 1), 'lemma')
    ctx.oblige('lemma: s < ceilshift if and only if s < cols (rows-1) (1 - cols/pmax)', (s < fceil(x)) == (S < x), 'lemma')
    hyp = z3.And(C >= 2, P >= C, P <= C + 1, x >= 0, x <= 1)
    ctx.oblige('lemma: period below pmax if and only if the shift is below cols (1 - cols/pmax)', z3.Implies(hyp, (C * C / (C - x) < P) == (C * C < P * (C - x))), 'lemma')
    ctx.oblige('lemma: ... step 2', z3.Implies(hyp, (C * C < P * (C - x)) == (x < C * (1 - C / P))), 'lemma')
    n1 = ctx.fresh('n1', 'Real')
    ctx.oblige('lemma: ... step 3', z3.Implies(n1 > 0, (S / n1 < q) == (S < n1 * q)), 'lemma')
    ctx.oblige('lemma: trial periods increase with the shift', z3.Implies(z3.And(hyp, q > x, q <= 1), C * C / (C - x) < C * C / (C - q)), 'lemma')
    ctx.oblige('lemma: the first trial period is the number of bins', z3.Implies(C >= 2, C * C / (C - 0) == C), 'lemma')
    # no gap: the last row reaches the period at which the next number of bins starts, to within one shift
    ctx.oblige('lemma: the shift by one bin reaches beyond the next number of bins', z3.Implies(C >= 2, C * C / (C - 1) > C + 1), 'lemma')

ALL += [CheckFactor, DownsampledSize, DownsampledVariance, CheckArguments, CeilShift]
