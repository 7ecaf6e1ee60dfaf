"""Models of the builtins and library functions used by the Python code of /repo (the trusted library contracts)."""
import z3
from dv.core import *
from dv.machine import *
from dv.pyval import *

pair2 = z3.Function('pair2', z3.RealSort(), z3.RealSort(), z3.RealSort())
EXCNAMES = ('ValueError', 'KeyError', 'TypeError', 'IndexError', 'Exception', 'RuntimeError', 'ZeroDivisionError', 'AttributeError')

def px():
    from dv import pyx
    return pyx

# ------------------------------------------------------------------ scalars
def trunc(E, x):
    x = E.num(x)
    if z3.is_int(x): return x
    if E.ctx.quick(x >= 0): return ffloor(x)
    return ite(simp(x >= 0), ffloor(x), -ffloor(-x))
def pyround(x):
    """round half to even"""
    x = R(x); f = ffloor(x); d = x - toreal(f); h = R(Fraction(1, 2))
    return ite(simp(d < h), f, ite(simp(d > h), f + 1, ite(simp(imod(f, I(2)) == 0), f, f + 1)))
def pymax(E, xs, mx=True):
    r = E.num(xs[0])
    for y in xs[1:]:
        y = E.num(y)
        a, b = (r, y) if r.sort() == y.sort() else (R(r), R(y))
        c = simp((b > a) if mx else (b < a))
        v = cval(c)
        if v is None and E.ctx.quick(c): v = True
        elif v is None and E.ctx.quick(z3.Not(c)): v = False
        r = b if v is True else a if v is False else ite(c, b, a)
    return simp(r)
def pyabs(E, x):
    x = E.num(x)
    if E.ctx.quick(x >= 0): return x
    return simp(z3.If(x >= 0, x, -x))

# ------------------------------------------------------------------ arrays
def dtname(d):
    if isinstance(d, Lib):
        n = d.name.split('.')[-1]
        return {'float': 'float64', 'int': 'int64', 'bool': 'bool', 'double': 'float64', 'single': 'float32'}.get(n, n)
    if isinstance(d, str): return {'float': 'float64', 'int': 'int64'}.get(d, d)
    raise Unsupported('dtype %r' % (d,))
def cast(E, a, dt):
    r = E.reader(a); old = E.dtype(a)
    if dt.startswith('int') or dt.startswith('uint'):
        f = lambda *i: (lambda x: x if z3.is_int(x) else (z3.If(x, I(1), I(0)) if z3.is_bool(x) else ite(simp(x >= 0), ffloor(x), -ffloor(-x))))(r(*i))
    elif dt == 'bool': f = lambda *i: (lambda x: x if z3.is_bool(x) else x != 0)(r(*i))
    else: f = lambda *i: R(E.num(r(*i)))
    return E.arr(a.shape, f, dt)
def asarray(E, v, dtype=None, copy=False):
    dt = None if dtype is None else dtname(dtype)
    v = E.thaw(v)
    if isinstance(v, ND):
        if dt is not None and E.dtype(v) != dt: return cast(E, v, dt)
        if copy: return E.arr(v.shape, E.reader(v), E.dtype(v))
        return v
    if isinstance(v, ORef) and '__list__' in E.cells[v.id].f: v = E.cells[v.id].f['__list__']
    if isinstance(v, Rec) and v.order: v = tuple(v.f[k] for k in v.order)
    if isinstance(v, (LST, tuple, Seq)):
        s = E.seq(v); n = s.n
        if cval(n) == 0: return E.arr([0], lambda i: R(0), dt or 'float64')
        l = v if isinstance(v, LST) else LST.of(v) if isinstance(v, tuple) else LST(0, s.n, s.fn)
        at = (lambda i: l.at(i, None))
        u = unique_bound()
        x0 = at(I(0)) if l.concrete() else at(u)
        x0 = E.thaw(x0) if not isinstance(x0, (Rec,)) else x0
        if isinstance(x0, Rec) and x0.cls == 'ndarray':
            nd = x0.f['nd']
            if any(occurs(d, [u]) for d in nd.shape): raise Unsupported('array of rows of different lengths')
            return E.arr([n] + list(nd.shape), lambda i, *j: at(i).f['nd'].fn(*j), dt or nd.dtype)
        if isinstance(x0, ND):
            if not l.concrete(): raise Unsupported('array of arrays')
            its = [asarray(E, x) for x in l.items()]
            for x in its[1:]:
                for d, e in zip(x.shape, its[0].shape):
                    if not E.decide(d == e): raise CThrow('ValueError', 'inhomogeneous shape')
            rs = [E.reader(x) for x in its]
            def g(i, *j):
                r = rs[-1](*j)
                for q in range(len(rs) - 2, -1, -1): r = ite(simp(I(i) == q), rs[q](*j), r)
                return r
            return E.arr([n] + list(its[0].shape), g, dt or E.dtype(its[0]))
        if not (E.isnum(x0)): raise Unsupported('array of %r' % (x0,))
        isint = all(z3.is_int(E.num(x)) for x in l.items()) if l.concrete() else z3.is_int(E.num(x0))
        d = dt or ('int64' if isint else 'float64')
        if d.startswith('float'): f = lambda i: R(E.num(at(i)))
        elif d.startswith('int') or d.startswith('uint'): f = lambda i: trunc(E, at(i))
        else: f = at
        return E.arr([n], f, d)
    if E.isnum(v):
        x = E.num(v); return E.arr([], lambda: x, dt or ('int64' if z3.is_int(x) else 'float64'))
    raise Unsupported('asarray of %r' % (v,))
def size(a):
    n = I(1)
    for s in a.shape: n = n * s
    return simp(n)
def flatidx(shape, idx):
    q = I(0)
    for s, i in zip(shape, idx): q = q * s + I(i)
    return simp(q)
def unflat(shape, q):
    out = []
    for s in reversed(shape[1:]): out.append(imod(q, s)); q = idiv(q, s)
    return [q] + out[::-1]
def divmod_(E, x, d):
    """(x div d, x mod d), split syntactically when x = c*d + r with 0 <= r < d known"""
    from dv.core import _factor
    co = _factor(simp(x), d)
    if co is not None and E.ctx.quick(z3.And(0 <= co[1], co[1] < d)): return simp(co[0]), simp(co[1])
    return idiv(x, d), imod(x, d)
def reshape(E, a, shape):
    n = size(a)
    shape = [E.num(s) for s in shape]
    neg = [j for j, s in enumerate(shape) if cval(s) == -1]
    if neg:
        rest = I(1)
        for j, s in enumerate(shape):
            if j != neg[0]: rest = rest * s
        rest = simp(rest)
        if not E.decide(rest > 0): raise CThrow('ValueError', 'reshape')
        q = None
        if rest.eq(n): q = I(1)
        else:
            fs = list(a.shape)
            if len(fs) > 1 and rest.eq(fs[-1]):
                q = I(1)
                for s in fs[:-1]: q = q * s
                q = simp(q)
            elif z3.is_mul(n):
                ch = n.children(); k = [j for j, c in enumerate(ch) if c.eq(rest)]
                if k:
                    q = I(1)
                    for j, c in enumerate(ch):
                        if j != k[0]: q = q * c
                    q = simp(q)
        if q is None:
            if not E.decide(imod(n, rest) == 0): raise CThrow('ValueError', 'reshape')
            q = idiv(n, rest)
        shape[neg[0]] = q
    else:
        m = I(1)
        for s in shape: m = m * s
        if not E.decide(simp(m) == n): raise CThrow('ValueError', 'reshape')
    sh = tuple(simp(I(s)) for s in shape)
    if len(sh) == len(a.shape) and all(x.eq(y) for x, y in zip(sh, a.shape)): return a
    c = E.cells[a.buf]
    if a.imap is None and len(a.shape) == 1:
        return ND(a.buf, sh, lambda *i: (flatidx(sh, i),), I(0))
    if a.flat is not None and len(c.shape) == 1:
        off = a.flat
        return ND(a.buf, sh, lambda *i: (simp(off + flatidx(sh, i)),), off)
    old = tuple(a.shape); im = a.imap
    def g(*i):
        o = unflat(old, flatidx(sh, i)) if len(old) > 1 else [flatidx(sh, i)]
        # the leading axes coincide: keep the indices
        if len(sh) == len(old) + 1 and False: pass
        return tuple(o) if im is None else im(*o)
    if len(old) == 2 and len(sh) == 3 and sh[2].eq(old[1]):
        def g(i, j, k, old=old, im=im):
            o = (simp(I(i) * sh[1] + I(j)), I(k)); return o if im is None else im(*o)
    if len(old) == 3 and len(sh) == 2 and sh[1].eq(old[2]):
        def g(i, k, old=old, im=im):
            o = divmod_(E, I(i), old[1]) + (I(k),); return o if im is None else im(*o)
    if len(old) == 2 and len(sh) == 1 and cval(old[0]) == 1:
        def g(k, im=im):
            o = (I(0), I(k)); return o if im is None else im(*o)
    if len(old) == 1 and len(sh) == 2 and cval(sh[0]) == 1:
        def g(i, k, im=im):
            return (I(k),) if im is None else im(I(k))
    return ND(a.buf, sh, g, None)
def normix(E, i, n):
    i = E.num(i)
    if z3.is_real(i): raise CThrow('IndexError', 'float index')
    c = cval(i)
    if c is not None and c < 0: i = simp(n + i)
    elif c is None and not E.ctx.quick(i >= 0):
        if E.decide(i < 0): i = simp(n + i)
    if not E.ctx.quick(z3.And(0 <= i, i < n)):
        if not E.decide(z3.And(0 <= i, i < n)): raise CThrow('IndexError')
    return simp(i)
def issl(x): return isinstance(x, tuple) and len(x) == 4 and x[0] == 'slice'
def masked(E, mask, n):
    """positions of the true entries of the mask of length n: (count, k-th position)"""
    r = E.reader(mask) if isinstance(mask, ND) else mask
    k = unique_bound()
    L = z3.simplify(z3.If(r(k), I(1), I(0)))
    cum, iot = hocum(k, L), hoiota(k, L)
    facts, fas = cum_facts(cum, iot, k, L, n)
    for f in facts: E.ctx.assume(f)
    for d, f in fas: E.ctx.forall(d, f)
    # every true entry is listed
    try: px().FA(1, lambda u: (z3.And(0 <= u, u < n, r(u)), z3.And(cum(u) < cum(n), iot(cum(u)) == u))).register(E)
    except Unsupported: pass
    return simp(cum(n)), iot
def nd_get(E, a, ix):
    if issl(ix):
        if ix[3] is not None and cval(E.num(ix[3])) == -1 and ix[1] is None and ix[2] is None:
            n = a.shape[0]; im = a.imap
            return ND(a.buf, a.shape, lambda i, *j: ((simp(n - 1 - I(i)),) + j) if im is None else im(simp(n - 1 - I(i)), *j), None)
        lo, d = E.slc(ix, a.shape[0])
        sh = (d,) + tuple(a.shape[1:]); im = a.imap
        if len(a.shape) == 1:
            fl = lo if im is None else (None if a.flat is None else simp(a.flat + lo))
            return ND(a.buf, sh, lambda i: (simp(lo + I(i)),) if im is None else im(simp(lo + I(i))), fl)
        return ND(a.buf, sh, lambda i, *j: ((simp(lo + I(i)),) + j) if im is None else im(simp(lo + I(i)), *j), None, a.cont)
    if ix is Ellipsis: return a
    if isinstance(ix, LST): ix = asarray(E, ix)
    if isinstance(ix, ND):
        if E.dtype(ix) == 'bool':
            if not E.decide(ix.shape[0] == a.shape[0]): raise CThrow('IndexError', 'boolean index')
            m, pos = masked(E, ix, a.shape[0])
            rd = E.reader(a)
            return E.arr([m] + list(a.shape[1:]), lambda i, *j: rd(pos(i), *j), E.dtype(a))
        if len(ix.shape) != 1: raise Unsupported('index array of this shape')
        ri, rd, n = E.reader(ix), E.reader(a), a.shape[0]
        E.oblige('%s: index array is in range' % E.fname(), px().FA(1, lambda u: (z3.And(0 <= u, u < ix.shape[0]), z3.And(0 <= ri(u), ri(u) < n))), 'exceptional')
        return E.arr([ix.shape[0]] + list(a.shape[1:]), lambda i, *j: rd(ri(i), *j), E.dtype(a))
    if isinstance(ix, tuple):
        if len(ix) > len(a.shape): raise CThrow('IndexError')
        maps = []; shape = []
        ix = list(ix)
        if any(x is None for x in ix): raise Unsupported('newaxis')
        ix += [('slice', None, None, None)] * (len(a.shape) - len(ix))
        for x, n in zip(ix, a.shape):
            if issl(x):
                lo, d = E.slc(x, n); maps.append((True, lo)); shape.append(d)
            elif isinstance(x, (ND, LST)): raise Unsupported('mixed index arrays')
            else: maps.append((False, normix(E, x, n)))
        im = a.imap
        def g(*i):
            it = iter(i); o = []
            for s, v in maps: o.append(simp(v + I(next(it))) if s else v)
            return tuple(o) if im is None else im(*o)
        if not shape: return E.reader(a)(*[v for s, v in maps])
        return ND(a.buf, shape, g, None)
    i = normix(E, ix, a.shape[0])
    if len(a.shape) == 1: return E.el(a, i)
    im = a.imap
    base1 = len(E.cells[a.buf].shape) == 1
    fl = simp(a.flat + i * a.shape[1]) if a.flat is not None and len(a.shape) == 2 and base1 else None
    return ND(a.buf, a.shape[1:], lambda *j: ((i,) + j) if im is None else im(i, *j), fl, a.cont)
def nd_set(E, a, ix, v):
    if issl(ix) and all(x is None for x in ix[1:]):
        if E.isnum(v): x = E.num(v); dt = E.dtype(a); E.setarr(a, lambda *i: E.fix_dtype(dt, x)); return
        if isinstance(v, ND): r = E.reader(v); dt = E.dtype(a); E.setarr(a, lambda *i: E.fix_dtype(dt, r(*i))); return
    if len(a.shape) == 1 and not isinstance(ix, (tuple, ND, LST)):
        i = normix(E, ix, a.shape[0]); r = E.reader(a); x = E.num(v); dt = E.dtype(a)
        x = E.fix_dtype(dt, x)
        E.setarr(a, lambda j: ite(simp(I(j) == i), x, r(j))); return
    if isinstance(ix, ND) and E.dtype(ix) == 'bool' and E.isnum(v):
        m = E.reader(ix); r = E.reader(a); x = E.fix_dtype(E.dtype(a), E.num(v))
        E.setarr(a, lambda *i: ite(m(*i), x, r(*i))); return
    raise Unsupported('array item assignment')

# ------------------------------------------------------------------ orderings
def perm_facts(E, n, key, stable=True):
    """permutation that sorts key(0..n-1) in increasing order; (P, inverse)"""
    K = ('PERM' if stable else 'APERM')
    P = lambda i: hosym(K, lambda u: R(key(u)), [simp(I(n)), simp(I(i))], z3.IntSort())
    Q = lambda i: hosym(K + 'INV', lambda u: R(key(u)), [simp(I(n)), simp(I(i))], z3.IntSort())
    pn, qn = P(I(0)).decl().name(), Q(I(0)).decl().name()
    ref = P(I(0)).children()
    mine = lambda a: all(x.eq(y) for x, y in zip(a.children()[:-1], ref[:-1]))
    last = lambda a: a.children()[-1]
    def fp(a):
        if not mine(a): return None
        i = last(a); return z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= a, a < n, Q(a) == i))
    def fq(a):
        if not mine(a): return None
        i = last(a); return z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= a, a < n, P(a) == i))
    def fpp(a, b):
        if not mine(a) or not mine(b) or a.eq(b): return None
        i, j = last(a), last(b); x, y = R(key(a)), R(key(b))
        return z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(a != b, (z3.Or(x < y, z3.And(x == y, a < b)) if stable else x <= y)))
    tag = ('perm', pn, tuple(x.get_id() for x in ref[:-1]))
    if not hasattr(E.ctx, 'permdone'): E.ctx.permdone = {}
    E.ctx.forall([pn], fp); E.ctx.forall([qn], fq); E.ctx.forall([pn, pn], fpp)
    w = unique_bound(); trig = None
    for nm, d in uf_apps(R(key(w))).items():
        for app in d.values():
            for j in range(app.num_args()):
                if app.arg(j).eq(w) and nm not in ('idiv', 'imod', '/', '*/', 'int*', 'ite!') and (trig is None or (nm, j) < trig): trig = (nm, j)
    if trig:
        def surj(a, b):
            u = b.arg(trig[1])
            if not mine(a) or u.num_args() or cval(u) is not None: return None
            return z3.Implies(z3.And(0 <= u, u < n), z3.And(0 <= Q(u), Q(u) < n, P(Q(u)) == u))
        E.ctx.forall([pn, trig[0]], surj)
    return P, Q
def argmax_facts(E, n, key):
    """first index of the maximum of key(0..n-1), n > 0"""
    A = hosym('ARGMAX', lambda u: R(key(u)), [simp(I(n))], z3.IntSort())
    E.ctx.assume(z3.Implies(I(n) > 0, z3.And(0 <= A, A < n)))
    kA = R(key(A))
    if cval(simp(I(n))) is not None and cval(simp(I(n))) <= 4:
        for j in range(cval(simp(I(n)))): E.ctx.assume(z3.And(R(key(I(j))) <= kA, z3.Implies(I(j) < A, R(key(I(j))) < kA)))
    else:
        try: px().FA(1, lambda u: (z3.And(0 <= u, u < n), z3.And(R(key(u)) <= kA, z3.Implies(u < A, R(key(u)) < kA)))).register(E)
        except Unsupported: pass
    return A
def argmax_val(n, key): return hosym('ARGMAX', lambda u: R(key(u)), [simp(I(n))], z3.IntSort())
def best(E, v, key, mx, default=None):
    """max/min of a sequence"""
    s = E.seq(v)
    if not E.decide(s.n > 0):
        if default is not None: return default[0]
        raise CThrow('ValueError', 'empty sequence')
    n = cval(s.n)
    if n is not None and n <= 4:
        its = [s.fn(I(j)) for j in range(n)]
        ks = [E.num(E.call(key, [x], {})) if key is not None else E.num(x) for x in its]
        if n == 1: return its[0]
        if key is None: return pymax(E, its, mx)
        r, k = its[0], ks[0]
        for x, y in zip(its[1:], ks[1:]):
            c = simp((R(y) > R(k)) if mx else (R(y) < R(k)))
            m = vmerge(c, x, r)
            if m is UNKNOWN:
                if E.decide(c): r, k = x, y
            else: r, k = m, ite(c, y, k)
        return r
    kf = keyfn(E, s, key)
    sg = (lambda u: R(kf(u))) if mx else (lambda u: -R(kf(u)))
    return s.fn(argmax_facts(E, s.n, sg))
def keyfn(E, s, key):
    """key of element u as a term (the key function must not branch)"""
    cache = []
    def g(u):
        if not cache:
            b = unique_bound()
            r = E.pure(lambda: E.under([z3.And(0 <= b, b < s.n)], lambda: (lambda x: E.num(E.call(key, [x], {})) if key is not None else E.num(x))(s.fn(b))))
            if r is None: raise Unsupported('key function with branches')
            cache.append((b, r[0]))
        b, t = cache[0]
        return subst(t, [(b, I(u))])
    g(I(0))
    return g
def sort_seq(E, v, key, reverse):
    s = E.seq(v); n = cval(s.n)
    if n is not None and n <= 1: return LST.of([s.fn(I(j)) for j in range(n)])
    if n is not None and n == 2:
        a, b = s.fn(I(0)), s.fn(I(1))
        ka, kb = [E.num(E.call(key, [x], {})) if key is not None else E.num(x) for x in (a, b)]
        c = simp((R(kb) > R(ka)) if reverse else (R(kb) < R(ka)))     # swap
        x, y = vmerge(c, b, a), vmerge(c, a, b)
        if x is UNKNOWN or y is UNKNOWN:
            return LST.of([b, a] if E.decide(c) else [a, b])
        return LST.of([x, y])
    kf = keyfn(E, s, key)
    P, Q = perm_facts(E, s.n, (lambda u: -R(kf(u))) if reverse else (lambda u: R(kf(u))))
    return LST(newoid(), s.n, lambda i: s.fn(P(I(i))))
def tolist(E, v):
    s = E.seq(v); n = cval(s.n)
    if isinstance(v, LST): return LST(newoid(), v.n0, v.fn, v.tail)
    if n is not None and n <= 16: return LST.of([s.fn(I(j)) for j in range(n)])
    return LST(newoid(), s.n, s.fn)
def filt(E, f, v):
    """list of the elements of v that satisfy f"""
    s = E.seq(v)
    env = px().Env(E.env.mod, E.env, E.env.func); old = E.env; E.env = env
    try:
        cell = E.new(LST(newoid(), 0, None)); xc = E.new(None)
        env.vars['<out>'] = cell; env.vars['<x>'] = xc
        import ast
        def body():
            x = E.cells[xc]
            if E.istrue(E.call(f, [x], {}) if f is not None else x): E.cells[cell] = E.cells[cell].append(E.freeze(x))
        E.forloop(s, ast.Name(id='<x>', ctx=ast.Store()), body, 'filter')
        r = E.cells[cell]
        return LST(newoid(), r.n0, r.fn, r.tail)
    finally: E.env = old
def quant(E, v, isall):
    s = E.seq(v); n = cval(s.n)
    if n is not None:
        f = [E.truth(s.fn(I(j))) for j in range(n)]
        return simp(conj(f) if isall else disj(f))
    # skolemised: the truth value b and, when it is false (all) / true (any), a witness
    b = E.ctx.fresh('all' if isall else 'any', 'Bool'); w = E.ctx.fresh('wit')
    t = lambda u: E.truth(s.fn(u))
    if isall:
        E.ctx.assume(z3.Implies(z3.Not(b), z3.And(0 <= w, w < s.n, z3.Not(t(w)))))
        try: px().FA(1, lambda u: (z3.And(0 <= u, u < s.n, b), t(u))).register(E)
        except Unsupported: pass
    else:
        E.ctx.assume(z3.Implies(b, z3.And(0 <= w, w < s.n, t(w))))
        try: px().FA(1, lambda u: (z3.And(0 <= u, u < s.n, z3.Not(b)), z3.Not(t(u)))).register(E)
        except Unsupported: pass
    return b

# ------------------------------------------------------------------ reductions of arrays
def a_sum(E, fn, n): return E.sum(lambda k: R(E.num(fn(k))), 0, n)
def mean1(E, fn, n): return a_sum(E, fn, n) / R(n)
def var1(E, fn, n):
    mu = mean1(E, fn, n)
    return E.sum(lambda k: (R(fn(k)) - mu) * (R(fn(k)) - mu), 0, n) / R(n)
def median_of(fn, n): return opaque('MEDIAN', lambda k: R(fn(k)), [simp(I(n))])
def pct_of(fn, n, q): return opaque('PCT', lambda k: R(fn(k)), [simp(I(n)), R(q)])
def reduce_ax(E, a, ax, red):
    """reduction of the array over an axis (None: all): red(fn, n)"""
    r = E.reader(a)
    if ax is None:
        if len(a.shape) == 1: return simp(red(r, a.shape[0]))
        sh = a.shape; n = size(a)
        return simp(red(lambda q: r(*unflat(sh, q)), n))
    ax = cval(E.num(ax))
    if ax is None: raise Unsupported('axis')
    if ax < 0: ax += len(a.shape)
    if len(a.shape) == 1: return simp(red(r, a.shape[0]))
    rest = [s for j, s in enumerate(a.shape) if j != ax]
    n = a.shape[ax]
    return E.arr(rest, lambda *i: red(lambda k: r(*(list(i[:ax]) + [k] + list(i[ax:]))), n), 'float64' if E.dtype(a) != 'float32' else 'float32')
def interp(E, x, xp, fp):
    rx, rp, rf = E.reader(x), E.reader(xp), E.reader(fp); n = xp.shape[0]
    if not E.decide(n > 0): raise CThrow('ValueError', 'interp')
    return E.arr(x.shape, lambda *i: interp_val(rp, rf, n, R(rx(*i))), 'float64')
def interp_val(rp, rf, n, x): return opaque('INTERP', lambda k: pair2(R(rp(k)), R(rf(k))), [simp(I(n)), R(x)])
def polyfit_val(rx, ry, n, deg, k): return opaque('POLYFIT', lambda u: pair2(R(rx(u)), R(ry(u))), [simp(I(n)), I(deg), I(k)])
def polyval(co, n, x):
    if cval(simp(I(n))) == 1: return R(co(I(0)))
    return opaque('POLYVAL', lambda u: R(co(u)), [simp(I(n)), R(x)])

# ------------------------------------------------------------------ constants and attributes
def const(E, name):
    if name in ('numpy.pi', 'math.pi'): return R(Fraction('3.141592653589793'))
    if name == 'riptide.libcpp': return Lib('riptide.libcpp')
    if name.startswith('argparse.') : return NotImplemented
    return NotImplemented
def clsattr(E, cls, name): raise CThrow('AttributeError', name)
def attr(E, o, name):
    if isinstance(o, ND):
        if name == 'size': return size(o)
        if name == 'shape': return tuple(o.shape)
        if name == 'ndim': return I(len(o.shape))
        if name == 'T':
            if len(o.shape) == 1: return o
            im = o.imap
            return ND(o.buf, tuple(o.shape[::-1]), lambda *i: tuple(i[::-1]) if im is None else im(*i[::-1]), None)
        if name == 'dtype': return Lib('numpy.' + E.dtype(o))
        if name == 'data': return LibObj('buffer', [o])
        return BoundM(o, name)
    if isinstance(o, LibObj):
        if name in o.kw: return o.kw[name]
        if o.name == 'schema.Optional' and name == 'schema': return o.args[0]
        if o.name == 'fractions.Fraction' and name == 'numerator': return o.args[0]
        if o.name == 'fractions.Fraction' and name == 'denominator': return o.args[1]
        if o.name == 'numpy.poly1d' and name in ('coefficients', 'coeffs', 'c', 'coef'): return o.args[0]
        return BoundM(o, name)
    if isinstance(o, (str, bytes, LST, DCT, tuple, Seq)): return BoundM(o, name)
    return NotImplemented
def getitem(E, o, ix):
    if isinstance(o, Opq) and (o.cls, '__getitem__') in getattr(E, 'opq_methods', {}): return E.opq_methods[(o.cls, '__getitem__')](E, o, [ix], {})
    return NotImplemented
def seq(E, v):
    if isinstance(v, LibObj) and v.name == 'dict.items':
        d = v.args[0]
        if d.rest is None: return E.seq(tuple((k, x) for k, x in d.ent.items()))
    h = E.libhook('seq', v) if hasattr(E, 'libhook') else None
    return h
def contains(E, c, x):
    if isinstance(c, (LST, ND, Seq)) and E.isnum(x):
        s = E.seq(c)
        return quant(E, Seq(s.n, lambda i: E.equal(s.fn(i), x)), False)
    return None
def dict_has(E, d, k):
    f = E.dicthooks.get('has') if hasattr(E, 'dicthooks') else None
    if f: return f(E, d, k)
    raise Unsupported('key of a dictionary with unknown content')
def dict_get(E, d, k):
    if isinstance(k, Opq): k = k
    f = E.dicthooks.get('get') if hasattr(E, 'dicthooks') else None
    if f: return f(E, d, k)
    raise Unsupported('lookup in a dictionary with unknown content')
def dict_set(E, d, k, v): raise Unsupported('item assignment with a symbolic key')
def symdict(E, l):
    """{key(i): value(i)}: later entries win"""
    return LibObj('symdict', [l])
def maybe_kw(E, unk, n, d, f): raise Unsupported('unknown keyword arguments')
def fraction_value(E, v): return None
def isfrac(v): return isinstance(v, LibObj) and v.name == 'fractions.Fraction'
def fraction_binop(E, op, a, b):
    if not (isfrac(a) or isfrac(b)): return None
    fl = lambda x: R(x.args[0]) / R(x.args[1]) if isfrac(x) else E.num(x)
    if op == 'Div' and isfrac(b) and E.isnum(a) and cval(E.num(a)) == 1:
        # 1/fraction: exact reciprocal with positive denominator
        if E.decide(b.args[0] == 0): raise CThrow('ZeroDivisionError')
        if not E.decide(b.args[0] > 0): return LibObj('fractions.Fraction', [-b.args[1], -b.args[0]])
        return LibObj('fractions.Fraction', [b.args[1], b.args[0]])
    if isfrac(a) and isfrac(b) and op in ('Add', 'Sub', 'Mult', 'Div', 'Eq'):
        if op == 'Eq': return simp(R(a.args[0]) * R(b.args[1]) == R(b.args[0]) * R(a.args[1]))
        raise Unsupported('arithmetic of fractions')
    if op == 'Eq': return E.cmpnum('Eq', R(fl(a)), R(fl(b)))
    x = b if isfrac(a) else a
    if E.isnum(x) and z3.is_int(E.num(x)): raise Unsupported('arithmetic of fractions')
    return E.arith(op, R(fl(a)), R(fl(b)), True)
def fpow(a, b):
    c = cval(b)
    if c is not None:
        if c == Fraction(1, 2): return fsqrt(a)
        if c == Fraction(-1, 2): return simp(1 / fsqrt(a))
        if Fraction(c).denominator == 1:
            n = int(c); r = z3.RealVal(1)
            for _ in range(abs(n)): r = r * a
            return simp(r if n >= 0 else 1 / r)
    raise Unsupported('power')
def strcat(E, a, b):
    c = [E.strcode(x) if isinstance(x, str) else x.id for x in (a, b)]
    return Opq('str', z3.Function('str.cat', z3.IntSort(), z3.IntSort(), z3.IntSort())(*c))
def obj_binop(E, op, a, b):
    f = fraction_binop(E, op, a, b)
    if f is not None: return f
    h = getattr(E, 'binhook', None)
    if h is not None:
        f = h(E, op, a, b)
        if f is not None: return f
    raise Unsupported('operator on %r and %r' % (a, b))
def enter(E, v):
    h = E.libhook('enter', v) if hasattr(E, 'libhook') else None
    if h is not None: return h
    raise Unsupported('with %r' % (v,))
def lst_extend(E, l, s):
    n = cval(s.n)
    if n is not None and n <= 16:
        for j in range(n): l = l.append(s.fn(I(j)))
        return l
    return l.extend(s.n, s.fn)

# ------------------------------------------------------------------ calls
def arg(args, kw, i, name, default=None):
    if i < len(args): return args[i]
    return kw.get(name, default)
def typeok(E, v, t):
    n = t.name if isinstance(t, Lib) else None
    v2 = v
    if n == 'int': return (z3.is_expr(v) and (z3.is_int(v) or z3.is_bool(v))) or isinstance(v, (int, bool))
    if n == 'float': return (z3.is_expr(v) and z3.is_real(v)) or isinstance(v, float)
    if n == 'bool': return isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))
    if n == 'str': return isinstance(v, str) or (isinstance(v, Opq) and v.cls == 'str')
    if n == 'list': return isinstance(v, LST) and not v.tup or (isinstance(v, ORef) and '__list__' in E.cells[v.id].f)
    if n == 'tuple': return isinstance(v, tuple) or (isinstance(v, Rec) and bool(v.order))
    if n == 'dict': return isinstance(v, DCT) or (isinstance(v, ORef) and '__dict__' in E.cells[v.id].f)
    if n == 'numpy.ndarray': return isinstance(v, ND)
    if n in ('numpy.integer', 'numpy.floating', 'pandas.DataFrame', 'astropy.coordinates.SkyCoord'):
        return isinstance(v, LibObj) and v.name == n
    if isinstance(t, PyClass): return isinstance(v, ORef) and t in E.mro(E.objcls(v)) or (isinstance(v, Rec) and v.cls == t.name)
    raise Unsupported('isinstance of %r' % (t,))

def call(E, name, args, kw):
    f = E.libfuncs.get(name) if hasattr(E, 'libfuncs') else None
    if f is not None: E.trusted.add(name); return f(E, args, kw)
    if name.startswith('riptide.libcpp.'): return cpp(E, name[15:], args, kw)
    short = name.split('.')[-1]
    if name == 'len':
        v = args[0]
        if isinstance(v, (str, bytes, tuple)): return I(len(v))
        if isinstance(v, ND):
            if not v.shape: raise CThrow('TypeError')
            return v.shape[0]
        if isinstance(v, DCT) and v.rest is None: return I(len(v.ent))
        return E.seq(v).n
    if name in ('abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs', 'math.fabs'):
        v = args[0]
        if isinstance(v, ND):
            r = E.reader(v); return E.arr(v.shape, lambda *i: (lambda x: z3.If(x >= 0, x, -x))(r(*i)), E.dtype(v))
        fr = fraction_binop(E, 'Add', v, R(0)) if isfrac(v) else None
        return pyabs(E, fr if fr is not None else v)
    if name in ('max', 'min'):
        key = kw.get('key')
        dflt = (kw['default'],) if 'default' in kw else None
        if len(args) > 1:
            if key is None:
                if any(a is None for a in args): raise CThrow('TypeError')
                return pymax(E, args, name == 'max')
            return best(E, tuple(args), key, name == 'max')
        return best(E, args[0], key, name == 'max', dflt)
    if name in ('numpy.maximum', 'numpy.minimum', 'numpy.fmax', 'numpy.fmin'):
        a, b = args
        mx = 'max' in short
        if not isinstance(a, ND) and not isinstance(b, ND): return pymax(E, [a, b], mx)
        shape, fa, fb = E.broadcast(a, b)
        dt = E.nd_dtype('Add', a, b)
        cv = (lambda x: R(E.num(x))) if dt.startswith('f') else (lambda x: E.num(x))
        def g(*i):
            x, y = cv(fa(*i)), cv(fb(*i))
            return z3.If(x >= y, x, y) if mx else z3.If(x <= y, x, y)
        return E.arr(shape, g, dt)
    if name == 'sorted': return sort_seq(E, args[0], kw.get('key'), simp(E.truth(kw.get('reverse', False))) is not None and bool(cval(E.truth(kw.get('reverse', False)))))
    if name == 'int':
        v = args[0] if args else I(0)
        if v is None: raise CThrow('TypeError')
        if isinstance(v, str):
            try: return I(int(v))
            except ValueError: raise CThrow('ValueError', 'int')
        return trunc(E, v)
    if name == 'float' and args and E.isnp(args[0]):
        x = E.ctx.fresh('flt', 'Real'); E.ctx.assume(x == args[0]); return x
    if name == 'float':
        v = args[0]
        if v is None: raise CThrow('TypeError')
        if isinstance(v, str):
            try: return R(float(v))
            except ValueError: raise CThrow('ValueError', 'float')
        if isfrac(v): return R(v.args[0]) / R(v.args[1])
        return R(E.num(v))
    if name == 'bool': return E.truth(args[0]) if args else False
    if name == 'round':
        if len(args) > 1 or kw: raise Unsupported('round with digits')
        x = E.num(args[0]); return x if z3.is_int(x) else pyround(x)
    if name in ('math.ceil', 'math.floor'):
        x = E.num(args[0])
        if z3.is_int(x): return x
        return fceil(x) if short == 'ceil' else ffloor(x)
    if name in ('numpy.floor', 'numpy.ceil'):
        v = args[0]; h = lambda x: toreal(ffloor(x)) if short == 'floor' else toreal(fceil(x))
        if isinstance(v, ND): r = E.reader(v); return E.arr(v.shape, lambda *i: h(R(r(*i))))
        return h(R(E.num(v)))
    if name == 'isinstance':
        ts = args[1] if isinstance(args[1], tuple) else (args[1],)
        return any(bool(typeok(E, args[0], t)) for t in ts)
    if name == 'type':
        v = args[0]
        if isinstance(v, ORef): return E.objcls(v)
        if isinstance(v, Rec): return E.reccls(v.cls)
        for t in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict'):
            if typeok(E, v, Lib(t)): return Lib(t)
        raise Unsupported('type of %r' % (v,))
    if name == 'getattr':
        try: return E.getattr(args[0], args[1])
        except CThrow as e:
            if e.etype == 'AttributeError' and len(args) > 2: return args[2]
            raise
    if name == 'hasattr':
        try: E.getattr(args[0], args[1]); return True
        except CThrow as e: return False
    if name in ('list', 'tuple'):
        if not args: return LST.of([]) if name == 'list' else ()
        if name == 'list' and isinstance(args[0], LibObj) and args[0].name == 'symdict.keys': return args[0].args[0]
        l = tolist(E, args[0])
        if name == 'tuple' and l.concrete(): return tuple(l.items())
        return l
    if name in ('set', 'frozenset'):
        l = tolist(E, args[0]) if args else LST.of([])
        if not l.concrete(): raise Unsupported('set of unknown size')
        return LibObj('set', l.items())
    if name == 'dict':
        d = DCT(newoid(), {})
        if args:
            s = args[0]
            if isinstance(s, (DCT, ORef)): x = E.asdict(s); d = DCT(newoid(), x.ent, x.rest)
            else:
                l = tolist(E, s)
                if not l.concrete(): return symdict(E, l)
                for p in l.items():
                    k, v = E.seq(p).fn(I(0)), E.seq(p).fn(I(1)); d = d.set(E.key(k), v)
        for k, v in kw.items():
            if k != '**': d = d.set(k, v)
        return d
    if name == 'range':
        a = [E.num(x) for x in args]
        if any(z3.is_real(x) for x in a): raise CThrow('TypeError')
        lo, hi = (I(0), a[0]) if len(a) == 1 else (a[0], a[1])
        st = cval(a[2]) if len(a) > 2 else 1
        if st == 1:
            d = simp(hi - lo)
            n = d if E.ctx.quick(d >= 0) else simp(z3.If(d >= 0, d, I(0)))
            return Seq(n, lambda i: simp(lo + I(i)))
        if st == -1:
            d = simp(lo - hi)
            n = d if E.ctx.quick(d >= 0) else simp(z3.If(d >= 0, d, I(0)))
            return Seq(n, lambda i: simp(lo - I(i)))
        if st is not None and st > 1:
            d = idiv(simp(hi - lo + st - 1), I(st)); n = d if E.ctx.quick(d >= 0) else simp(z3.If(d >= 0, d, I(0)))
            return Seq(n, lambda i: simp(lo + st * I(i)))
        raise Unsupported('range step')
    if name == 'enumerate':
        s = E.seq(args[0]); st = E.num(arg(args, kw, 1, 'start', 0)); return Seq(s.n, lambda i: (simp(I(i) + st), s.fn(I(i))))
    if name == 'zip':
        ss = [E.seq(a) for a in args]
        n = ss[0].n
        for s in ss[1:]:
            if simp(s.n).eq(simp(n)) or E.ctx.quick(s.n == n): continue
            n = pymax(E, [n, s.n], False)
        return Seq(n, lambda i: tuple(s.fn(I(i)) for s in ss))
    if name == 'reversed': s = E.seq(args[0]); return Seq(s.n, lambda i: s.fn(simp(s.n - 1 - I(i))))
    if name == 'iter': return E.seq(args[0])
    if name == 'map':
        f = args[0]; s = E.seq(args[1])
        n = cval(s.n)
        if n is not None: return LST.of([E.call(f, [s.fn(I(j))], {}) for j in range(n)])
        return mapped(E, f, s)
    if name == 'filter': return filt(E, args[0], args[1])
    if name in ('any', 'all'): return quant(E, args[0], name == 'all')
    if name == 'sum':
        s = E.seq(args[0]); n = cval(s.n)
        st = args[1] if len(args) > 1 else kw.get('start', I(0))
        if n is not None and n <= 16:
            r = st
            for j in range(n): r = E.binop('Add', r, s.fn(I(j)))
            return r
        return simp(R(E.num(st)) + E.sum(lambda k: R(E.num(s.fn(k))), 0, s.n))
    if name in ('str', 'repr'):
        v = args[0] if args else ''
        if isinstance(v, str) and name == 'str': return v
        if isinstance(v, Opq) and v.cls == 'str' and name == 'str': return v
        return Opq('str', E.ctx.fresh('str'))
    if name == 'print': return None
    if name == 'divmod': return (E.binop('FloorDiv', args[0], args[1]), E.binop('Mod', args[0], args[1]))
    if name == 'pow': return E.binop('Pow', args[0], args[1])
    if name in ('object', 'callable'): return LibObj(name, args)
    if short in EXCNAMES: return LibObj('exc:' + short, args)
    # ---- standard library
    if name in ('functools.wraps',): return Native(lambda f: f)
    if name in ('time.time', 'time.perf_counter'): return E.ctx.fresh('time', 'Real')
    if name == 'logging.getLogger': return LibObj('logging.Logger')
    if name in ('logging.basicConfig', 'logging.captureWarnings', 'logging.disable'): return None
    if name == 'copy.deepcopy': return deepcopy(E, args[0])
    if name == 'copy.copy' : return deepcopy(E, args[0]) if not isinstance(args[0], ORef) else shallow(E, args[0])
    if name in ('math.sqrt', 'numpy.sqrt') and not isinstance(args[0], ND):
        v = fsqrt(R(E.num(args[0])))
        return E.tagnp(v) if name == 'numpy.sqrt' else v
    if name in ('schema.Optional', 'schema.Schema', 'schema.And', 'schema.Or', 'schema.Use'): return LibObj(name, args, kw)
    if name == 'itertools.combinations': return combinations(E, args[0], args[1])
    if name == 'itertools.product' and len(args) == 2:
        a, b = E.seq(args[0]), E.seq(args[1])
        return Seq(simp(a.n * b.n), lambda i: (a.fn(idiv(I(i), b.n)), b.fn(imod(I(i), b.n))))
    if name == 'collections.defaultdict': return LibObj('defaultdict', args)
    if name == 'fractions.Fraction':
        if len(args) == 2: return LibObj('fractions.Fraction', [E.num(args[0]), E.num(args[1])])
        x = args[0]
        if isfrac(x): return x
        x = E.num(x)
        if z3.is_int(x): return LibObj('fractions.Fraction', [x, I(1)])
        return LibObj('FractionOf', [x])
    # ---- numpy
    if name in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.atleast_1d', 'numpy.copy'):
        dt = arg(args, kw, 1, 'dtype')
        if name == 'numpy.copy': return asarray(E, args[0], None, True)
        if name == 'numpy.ascontiguousarray' and isinstance(args[0], ND) and not args[0].cont:
            a = E.arr(args[0].shape, E.reader(args[0]), E.dtype(args[0]))
            return asarray(E, a, dt)
        return asarray(E, args[0], dt, name == 'numpy.array')
    if name in ('numpy.arange',):
        a = [E.num(x) for x in args[:3]]
        lo, hi = (I(0), a[0]) if len(a) == 1 else (a[0], a[1])
        if not (z3.is_int(lo) and z3.is_int(hi)) or len(a) > 2: raise Unsupported('arange with real bounds')
        dt = dtname(arg(args, kw, 3, 'dtype')) if arg(args, kw, 3, 'dtype') is not None else 'int64'
        d = simp(hi - lo)
        n = d if E.ctx.quick(d >= 0) else simp(z3.If(d >= 0, d, I(0)))
        return E.arr([n], (lambda i: simp(lo + I(i))) if not dt.startswith('f') else (lambda i: R(simp(lo + I(i)))), dt)
    if name in ('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty'):
        sh = args[0]; sh = list(E.seq(sh).fn(I(j)) for j in range(cval(E.seq(sh).n))) if isinstance(sh, (tuple, LST)) else [sh]
        dt = dtname(arg(args, kw, 2 if short == 'full' else 1, 'dtype') or Lib('numpy.float64'))
        v = {'zeros': 0, 'ones': 1}.get(short)
        if short == 'full': v = E.num(args[1])
        if short == 'empty': f = E.ctx.freshfn('empty', ['Int'] * len(sh), 'Real'); return E.arr([E.num(s) for s in sh], lambda *i: f(*[I(x) for x in i]), dt)
        return E.arr([E.num(s) for s in sh], lambda *i: R(v) if dt.startswith('f') else v if z3.is_expr(v) else I(v), dt)
    if name == 'numpy.diff':
        a = asarray(E, args[0]); r = E.reader(a)
        if len(a.shape) != 1: raise Unsupported('diff')
        d = simp(a.shape[0] - 1); n = d if E.ctx.quick(d >= 0) else simp(z3.If(d >= 0, d, I(0)))
        return E.arr([n], lambda i: simp(r(simp(I(i) + 1)) - r(I(i))), E.dtype(a))
    if name in ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere') and len(args) == 1:
        a = asarray(E, args[0])
        if len(a.shape) != 1 or short == 'argwhere': raise Unsupported('where')
        r = E.reader(a)
        m = r if E.dtype(a) == 'bool' else (lambda i: r(i) != 0)
        n, pos = masked(E, m, a.shape[0])
        v = E.arr([n], lambda i: pos(I(i)), 'int64')
        return v if short == 'flatnonzero' else (v,)
    if name == 'numpy.where' and len(args) == 3:
        shape, fc, fa = E.broadcast(args[0], args[1]); sh2, fa2, fb = E.broadcast(args[1], args[2])
        if not isinstance(args[0], ND): raise Unsupported('where')
        return E.arr(args[0].shape, lambda *i: ite(fc(*i), fa(*i), fb(*i)), E.nd_dtype('Add', args[1], args[2]))
    if name in ('numpy.concatenate', 'numpy.hstack', 'numpy.append'):
        parts = [asarray(E, x) for x in (E.seq(args[0]).fn(I(j)) for j in range(cval(E.seq(args[0]).n)))] if short != 'append' else [asarray(E, x) for x in args[:2]]
        if any(len(p.shape) != 1 for p in parts): raise Unsupported('concatenate')
        ds = [E.dtype(p) for p in parts if cval(p.shape[0]) != 0]
        dt = 'float64' if any(d.startswith('f') for d in ds) else (ds[0] if ds else 'float64')
        rs = [E.reader(p) for p in parts]
        offs = [I(0)]
        for p in parts: offs.append(simp(offs[-1] + p.shape[0]))
        conv = (lambda x: R(E.num(x))) if dt.startswith('f') else (lambda x: x)
        def g(i):
            i = simp(I(i)); r = None
            for q in range(len(parts) - 1, -1, -1):
                if cval(parts[q].shape[0]) == 0: continue
                x = conv(rs[q](simp(i - offs[q])))
                r = x if r is None else ite(simp(i < offs[q + 1]), x, r)
            return r
        return E.arr([offs[-1]], g, dt)
    if name in ('numpy.sort', 'numpy.argsort'):
        a = asarray(E, args[0]); r = E.reader(a)
        if len(a.shape) != 1: raise Unsupported('sort')
        n = a.shape[0]
        P, Q = perm_facts(E, n, lambda u: R(r(u)), False)
        return E.arr([n], (lambda i: r(P(I(i)))) if short == 'sort' else (lambda i: P(I(i))), E.dtype(a) if short == 'sort' else 'int64')
    if name in ('numpy.log', 'math.log'):
        lg = lambda x: z3.Function('flog', z3.RealSort(), z3.RealSort())(R(x))
        if isinstance(args[0], ND): r = E.reader(args[0]); return E.arr(args[0].shape, lambda *i: lg(E.num(r(*i))))
        return lg(E.num(args[0]))
    if name in ('numpy.sin', 'math.sin', 'numpy.radians', 'math.radians', 'numpy.deg2rad', 'numpy.sign'):
        x = args[0]
        g = {'sin': lambda v: _sin_(R(v)), 'radians': lambda v: R(v) * R(Fraction('0.017453292519943295')), 'deg2rad': lambda v: R(v) * R(Fraction('0.017453292519943295')),
             'sign': lambda v: z3.If(R(v) > 0, R(1), z3.If(R(v) < 0, R(-1), R(0)))}[short]
        if isinstance(x, ND): r = E.reader(x); return E.arr(x.shape, lambda *i: g(r(*i)))
        return simp(g(E.num(x)))
    if name == 'numpy.sqrt': r = E.reader(args[0]); return E.arr(args[0].shape, lambda *i: fsqrt(R(r(*i))), E.dtype(args[0]))
    if name in ('numpy.mean', 'numpy.var', 'numpy.std', 'numpy.sum', 'numpy.argmax', 'numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin', 'numpy.ravel', 'numpy.reshape', 'numpy.argmin', 'numpy.cumsum', 'numpy.any', 'numpy.all'):
        return nd_method(E, asarray(E, args[0]), {'amax': 'max', 'amin': 'min'}.get(short, short), args[1:], kw)
    if name == 'numpy.median':
        a = asarray(E, args[0]); return reduce_ax(E, a, arg(args, kw, 1, 'axis'), lambda f, n: median_of(f, n))
    if name == 'numpy.percentile':
        a = asarray(E, args[0]); q = args[1]; ax = arg(args, kw, 2, 'axis')
        if isinstance(q, (tuple, LST)):
            qs = [E.num(E.seq(q).fn(I(j))) for j in range(cval(E.seq(q).n))]
            return tuple(reduce_ax(E, a, ax, lambda f, n, x=x: pct_of(f, n, x)) for x in qs)
        return reduce_ax(E, a, ax, lambda f, n: pct_of(f, n, E.num(q)))
    if name == 'numpy.interp': return interp(E, asarray(E, args[0]), asarray(E, args[1]), asarray(E, args[2]))
    if name == 'numpy.polyfit':
        x, y = asarray(E, args[0]), asarray(E, args[1]); deg = args[2]
        d = E.num(deg)
        d = d if z3.is_int(d) else trunc(E, d)
        rx, ry = E.reader(x), E.reader(y)
        if not E.decide(x.shape[0] == y.shape[0]): raise CThrow('TypeError', 'polyfit')
        return E.arr([simp(d + 1)], lambda k: polyfit_val(rx, ry, x.shape[0], d, k))
    if name == 'numpy.poly1d':
        return LibObj('numpy.poly1d', [asarray(E, args[0])])
    if name == 'numpy.nextafter':
        a, b = R(E.num(args[0])), R(E.num(args[1]))
        if cval(b) == 0 and E.ctx.quick(a > 0):
            # the largest double below a: within 2^-51 relative distance
            r = E.ctx.fresh('nextafter', 'Real'); e = R(Fraction(1, 2**51))
            E.ctx.assume(z3.And(r < a, r >= a * (1 - e))); return r
        raise Unsupported('nextafter')
    if name == 'numpy.array_equal': raise Unsupported('array_equal')
    if name.startswith('warnings.'): return None
    if name == 'os.path.realpath' or name == 'os.path.abspath':
        v = args[0]
        f = z3.Function('realpath', z3.IntSort(), z3.IntSort())
        return Opq('str', f(E.strcode(v) if isinstance(v, str) else v.id))
    raise Unsupported('library function %s' % name)

def _sin_(x): return z3.Function('fsin', z3.RealSort(), z3.RealSort())(x)

def mapped(E, f, s):
    env = px().Env(E.env.mod, E.env, E.env.func); old = E.env; E.env = env
    import ast
    try:
        cell = E.new(LST(newoid(), 0, None)); xc = E.new(None)
        env.vars['<out>'] = cell; env.vars['<x>'] = xc
        def body(): E.cells[cell] = E.cells[cell].append(E.freeze(E.call(f, [E.cells[xc]], {})))
        E.forloop(s, ast.Name(id='<x>', ctx=ast.Store()), body, 'map')
        r = E.cells[cell]
        return LST(newoid(), r.n0, r.fn, r.tail)
    finally: E.env = old

def combinations(E, v, k):
    s = E.seq(v); n = cval(s.n); k = cval(E.num(k))
    if n is not None and k is not None and n <= 6:
        import itertools
        return LST.of([tuple(s.fn(I(j)) for j in c) for c in itertools.combinations(range(n), k)])
    if k != 2: raise Unsupported('combinations')
    # all pairs (a(q), b(q)), a < b < n, in lexicographic order
    a = z3.Function('comb_a', z3.IntSort(), z3.IntSort(), z3.IntSort()); b = z3.Function('comb_b', z3.IntSort(), z3.IntSort(), z3.IntSort())
    ix = z3.Function('comb_ix', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort()); N = z3.Function('comb_n', z3.IntSort(), z3.IntSort())
    n = s.n
    E.ctx.assume(z3.And(N(n) >= 0, z3.Implies(n < 2, N(n) == 0), z3.Implies(n >= 2, N(n) >= 1)))
    mine = lambda t: t.arg(0).eq(n)
    def fa(t):
        if not mine(t): return None
        q = t.arg(1); return z3.Implies(z3.And(0 <= q, q < N(n)), z3.And(0 <= a(n, q), a(n, q) < b(n, q), b(n, q) < n, ix(n, a(n, q), b(n, q)) == q))
    def fx(t):
        if not mine(t): return None
        i, j = t.arg(1), t.arg(2); return z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(0 <= t, t < N(n), a(n, t) == i, b(n, t) == j))
    def fl(t, u):
        if not mine(t) or not mine(u) or t.eq(u): return None
        p, q = t.arg(1), u.arg(1)
        return z3.Implies(z3.And(0 <= p, p < q, q < N(n)), z3.Or(a(n, p) < a(n, q), z3.And(a(n, p) == a(n, q), b(n, p) < b(n, q))))
    E.ctx.forall(['comb_a'], fa); E.ctx.forall(['comb_b'], fa); E.ctx.forall(['comb_ix'], fx); E.ctx.forall(['comb_a', 'comb_a'], fl)
    return Seq(N(n), lambda q: (s.fn(a(n, I(q))), s.fn(b(n, I(q)))))

def shallow(E, o):
    c = E.cells[o.id]; f = dict(c.f)
    for k in ('__list__', '__dict__'):
        if k in f: v = f[k]; f[k] = LST(newoid(), v.n0, v.fn, v.tail) if k == '__list__' else DCT(newoid(), v.ent, v.rest)
    return ORef(E.new(StructVal(c.tname, f)))
def deepcopy(E, v):
    if isinstance(v, ORef):
        c = E.cells[v.id]
        return ORef(E.new(StructVal(c.tname, {k: (x if k == '__class__' else deepcopy(E, x)) for k, x in c.f.items()})))
    if isinstance(v, ND): return E.arr(v.shape, E.reader(v), E.dtype(v))
    if isinstance(v, LST): 
        if v.concrete(): return LST.of([deepcopy(E, x) for x in v.items()])
        return LST(newoid(), v.n0, v.fn, v.tail)
    if isinstance(v, DCT): return DCT(newoid(), {k: deepcopy(E, x) for k, x in v.ent.items()}, v.rest)
    if isinstance(v, tuple): return tuple(deepcopy(E, x) for x in v)
    return v

def nd_method(E, a, name, args, kw):
    r = nd_method_(E, a, name, args, kw)
    if name in ('mean', 'var', 'std', 'sum', 'max', 'min', 'item') and z3.is_expr(r) and z3.is_real(r):
        dt = kw.get('dtype')
        if (dtname(dt) if dt is not None else E.dtype(a)) != 'float32': E.tagnp(r)
    return r
def nd_method_(E, a, name, args, kw):
    r = E.reader(a)
    ax = arg(args, kw, 0, 'axis')
    if name == 'mean':
        if ax is None and not E.decide(size(a) > 0): raise Unsupported('mean of an empty array (nan)')
        return reduce_ax(E, a, ax, lambda f, n: mean1(E, f, n))
    if name == 'var': return reduce_ax(E, a, ax, lambda f, n: var1(E, f, n))
    if name == 'std': return reduce_ax(E, a, ax, lambda f, n: fsqrt(var1(E, f, n)))
    if name == 'sum':
        if E.dtype(a) == 'bool': r0 = r; return reduce_ax(E, E.arr(a.shape, lambda *i: z3.If(r0(*i), I(1), I(0)), 'int64'), ax, lambda f, n: E.sum(f, 0, n, z3.IntSort()))
        return reduce_ax(E, a, ax, lambda f, n: a_sum(E, f, n) if E.dtype(a).startswith('f') else E.sum(lambda k: E.num(f(k)), 0, n, z3.IntSort()))
    if name in ('argmax', 'argmin', 'max', 'min'):
        if len(a.shape) == 1:
            if not E.decide(a.shape[0] > 0): raise CThrow('ValueError', 'empty')
            sg = (lambda u: R(r(u))) if 'max' in name else (lambda u: -R(r(u)))
            i = argmax_facts(E, a.shape[0], sg)
            return i if name.startswith('arg') else r(i)
        return reduce_ax(E, a, ax, lambda f, n: (lambda A: A if name.startswith('arg') else f(A))(argmax_val(n, (lambda u: R(f(u))) if 'max' in name else (lambda u: -R(f(u))))))
    if name in ('any', 'all'): return quant(E, Seq(a.shape[0], lambda i: r(i)), name == 'all')
    if name == 'argsort':
        return call(E, 'numpy.argsort', [a], {})
    if name == 'astype': return cast(E, a, dtname(args[0]))
    if name == 'reshape':
        sh = args
        if len(sh) == 1 and isinstance(sh[0], (tuple, LST)): s = E.seq(sh[0]); sh = [s.fn(I(j)) for j in range(cval(s.n))]
        return reshape(E, a, sh)
    if name in ('copy',): return E.arr(a.shape, r, E.dtype(a))
    if name in ('ravel', 'flatten'):
        if len(a.shape) == 1: return a if name == 'ravel' else E.arr(a.shape, r, E.dtype(a))
        sh = a.shape; return E.arr([size(a)], lambda q: r(*unflat(sh, I(q))), E.dtype(a))
    if name == 'tolist': return LST(newoid(), a.shape[0], lambda i: r(I(i)))
    if name == 'transpose' and not args: return attr(E, a, 'T')
    if name == 'item' and not args: return r(*[I(0)] * len(a.shape))
    if name in ('__getitem__',): return nd_get(E, a, args[0])
    raise Unsupported('array method %s' % name)

def method(E, o, name, args, kw):
    h = E.opq_methods.get((o.cls, name)) if isinstance(o, Opq) else None
    if h is not None: return h(E, o, args, kw)
    if isinstance(o, LibObj):
        h = E.opq_methods.get((o.name, name))
        if h is not None: return h(E, o, args, kw)
    if isinstance(o, ND): return nd_method(E, o, name, args, kw)
    if isinstance(o, ORef):
        f = E.cells[o.id].f
        if '__dict__' in f: return method(E, f['__dict__'], name, args, kw)
        if '__list__' in f: return method(E, f['__list__'], name, args, kw)
    if isinstance(o, LST):
        if name == 'append':
            if E.mutate(o, o.append(E.freeze(args[0]))) == 0: pass
            return None
        if name == 'extend':
            E.mutate(o, lst_extend(E, o, E.seq(args[0]))); return None
        if name == 'copy': return LST(newoid(), o.n0, o.fn, o.tail)
        if name == 'sort':
            r = sort_seq(E, o, kw.get('key'), bool(cval(E.truth(kw.get('reverse', False)))))
            E.mutate(o, LST(o.oid, r.n0, r.fn, r.tail)); return None
        if name == 'clear': E.mutate(o, LST(o.oid, 0, None)); return None
        if name == 'reverse':
            s = E.seq(o); E.mutate(o, LST(o.oid, s.n, lambda i: s.fn(simp(s.n - 1 - I(i))))); return None
        if name == 'insert' and o.concrete() and cval(E.num(args[0])) is not None:
            it = o.items(); it.insert(cval(E.num(args[0])), args[1]); E.mutate(o, LST.of(it, o.oid)); return None
        if name == 'pop' and o.concrete():
            it = o.items()
            if not it: raise CThrow('IndexError')
            v = it.pop(*[cval(E.num(a)) for a in args]); E.mutate(o, LST.of(it, o.oid)); return v
    if isinstance(o, DCT):
        if name == 'get':
            k = args[0] if isinstance(args[0], Opq) else E.key(args[0])
            if k in o.ent: return o.ent[k]
            if o.rest is not None:
                c = dict_has(E, o, k)
                if E.decide(c): return dict_get(E, o, k)
            return args[1] if len(args) > 1 else kw.get('default')
        if name == 'items' and o.rest is None: return tuple((k, v) for k, v in o.ent.items())
        if name == 'values' and o.rest is None: return tuple(o.ent.values())
        if name == 'keys' and o.rest is None: return tuple(o.ent.keys())
        if name == 'copy': return DCT(newoid(), o.ent, o.rest)
        if name == 'setdefault':
            k = E.key(args[0]); d = args[1] if len(args) > 1 else None
            if k in o.ent: return o.ent[k]
            if o.rest is not None:
                if E.decide(dict_has(E, o, k)): return dict_get(E, o, k)
            E.mutate(o, o.set(k, d)); return d
        if name == 'update':
            d = o
            if args:
                x = E.asdict(args[0])
                if x.rest is not None: raise Unsupported('update with unknown content')
                for k, v in x.ent.items(): d = d.set(k, v)
            for k, v in kw.items(): d = d.set(k, v)
            E.mutate(o, d); return None
        if name == 'pop':
            k = E.key(args[0])
            if k in o.ent:
                e = dict(o.ent); v = e.pop(k); E.mutate(o, DCT(o.oid, e, o.rest)); return v
            if o.rest is None:
                if len(args) > 1: return args[1]
                raise CThrow('KeyError', str(k))
    if isinstance(o, LibObj):
        if o.name == 'symdict':
            l = o.args[0]
            if name == 'keys': return LibObj('symdict.keys', [keys_of(E, l)])
        if o.name == 'logging.Logger': return None
        if o.name == 'schema.Schema' and name == 'validate':
            E.trusted.add('schema.Schema.validate accepts valid input and returns it'); return args[0]
        if o.name == 'FractionOf' and name == 'limit_denominator':
            return limit_denominator(E, o.args[0], args[0] if args else I(1000000))
        if o.name == 'numpy.poly1d': return method(E, o.args[0], name, args, kw)
    if isinstance(o, (str, Opq)) and (isinstance(o, str) or o.cls == 'str'):
        if name == 'format':
            import re
            if isinstance(o, str):
                for k, m in enumerate(re.findall(r'\{[^}]*\}', o)):
                    if re.search(r':[^}]*\.\d+[feg]', m) and k < len(args) and (args[k] is None or isinstance(args[k], str)): raise CThrow('TypeError', 'format')
            return Opq('str', E.ctx.fresh('fmt'))
        if isinstance(o, str) and all(isinstance(a, (str, int, tuple)) for a in args) and not kw and name in ('strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'splitlines', 'encode'):
            r = getattr(o, name)(*args)
            return LST.of(r) if isinstance(r, list) else r
        if name == 'join': return Opq('str', E.ctx.fresh('join'))
        f = z3.Function('str.' + name, z3.IntSort(), z3.IntSort())
        return Opq('str', f(o.id if isinstance(o, Opq) else E.strcode(o)))
    if isinstance(o, Rec) and name == '_replace': return Rec(o.cls, {**o.f, **kw}, o.order)
    if isinstance(o, Rec) and name == '_asdict': return DCT(newoid(), o.f)
    raise Unsupported('method %s of %r' % (name, o))

def keys_of(E, l):
    """keys of {k(i): v(i)}: the distinct values k(i) in order of first occurrence (duplicates assumed absent)"""
    E.ctx.assumptions.append('dictionary built from a list has distinct keys')
    s = E.seq(l)
    return LST(newoid(), s.n, lambda i: s.fn(I(i))[0])

ldn = z3.Function('limden_num', z3.RealSort(), z3.IntSort(), z3.IntSort())
ldd = z3.Function('limden_den', z3.RealSort(), z3.IntSort(), z3.IntSort())
def limit_denominator(E, x, dmax):
    """closest fraction with bounded denominator (in lowest terms)"""
    x, d = R(x), E.num(dmax)
    p, q = ldn(x, d), ldd(x, d)
    E.ctx.assume(z3.Implies(d >= 1, z3.And(q >= 1, q <= d, z3.Implies(x >= 1, p >= q), z3.Implies(x > 0, p >= 0), z3.Implies(x == 1, z3.And(p == 1, q == 1)))))
    if not E.decide(d >= 1): raise CThrow('ValueError', 'limit_denominator')
    return LibObj('fractions.Fraction', [p, q])

def callobj(E, f, args, kw):
    if f.name == 'numpy.poly1d':
        co = E.reader(f.args[0]); n = f.args[0].shape[0]; x = args[0]
        if isinstance(x, ND): r = E.reader(x); return E.arr(x.shape, lambda *i: polyval(co, n, R(r(*i))))
        return polyval(co, n, R(E.num(x)))
    h = E.opq_methods.get((f.name, '__call__'))
    if h is not None: return h(E, f, args, kw)
    raise Unsupported('call of %r' % (f,))

# ------------------------------------------------------------------ riptide.libcpp (the contracts proved for the C++ bindings)
def conv32(E, v, dt='float32', dims=None):
    """array argument of a pybind11 function (py::array::c_style | forcecast not used: converted when possible)"""
    v = E.thaw(v)
    a = asarray(E, v)
    if not a.cont and E.dtype(a) == dt: raise CThrow('ValueError', 'array is not contiguous')
    if E.dtype(a) != dt: a = cast(E, a, dt)
    return a
def cpp(E, name, args, kw):
    from dv import spec_cxx as S
    E.trusted.add('contract of riptide.libcpp.%s (proved for the C++ binding where it is listed under functions_under_contract of C01, C03, C04)' % name)
    m = E
    if name == 'ffa2':
        x = conv32(E, args[0])
        if len(x.shape) != 2: raise CThrow('ValueError')
        r, c = x.shape
        if not E.decide(z3.And(r > 0, c > 0)): raise CThrow('IndexError')
        rd = E.reader(x)
        fl = flatreader(E, x)
        return E.arr([r, c], lambda i, j: ffa(fl, I(0), r, c, I(i), I(j)), 'float32')
    if name == 'downsample':
        x = conv32(E, args[0]); f = R(E.num(args[1]))
        if len(x.shape) != 1: raise CThrow('ValueError')
        n = x.shape[0]
        if E.decide(S.bad_factor(n, f)): raise CThrow('ValueError')
        rd = E.reader(x)
        k = ffloor(R(n) / f)
        E.ctx.assume(k >= 1)
        return E.arr([k], lambda i: S.integral(m, rd, n, (R(i) + 1) * f) - S.integral(m, rd, n, R(i) * f), 'float32')
    if name in ('snr2', 'snr1'):
        x = conv32(E, args[0]); w = conv32(E, args[1], 'uint64'); sd = R(E.num(args[2]))
        if len(x.shape) != (2 if name == 'snr2' else 1) or len(w.shape) != 1: raise CThrow('ValueError')
        b = x.shape[-1]; rw = E.reader(w); nw = w.shape[0]
        if not E.decide(z3.And(b > 0, nw > 0)): raise CThrow('ValueError')
        if len(x.shape) == 2 and not E.decide(x.shape[0] > 0): raise CThrow('IndexError')
        bad = quant(E, Seq(nw, lambda i: z3.Not(z3.And(rw(i) > 0, rw(i) < b))), False)
        if E.decide(bad): raise CThrow('ValueError')
        if not E.decide(sd > 0): raise CThrow('ValueError')
        rx = E.reader(x)
        if len(x.shape) == 1: return E.arr([nw], lambda j: S.boxcar_snr(m, rx, b, rw(j), sd), 'float32')
        return E.arr([x.shape[0], nw], lambda i, j: S.boxcar_snr(m, lambda e: rx(I(i), e), b, rw(j), sd), 'float32')
    if name == 'running_median':
        x = conv32(E, args[0], E.dtype(args[0]) if isinstance(args[0], ND) and E.dtype(args[0]) in ('float32', 'float64') else 'float64')
        w = E.num(args[1])
        if z3.is_real(w): raise CThrow('TypeError')
        if len(x.shape) != 1: raise CThrow('ValueError')
        n = x.shape[0]
        if not E.decide(w >= 0): raise CThrow('TypeError')
        if E.decide(z3.Or(imod(w, I(2)) != 1, w >= n)): raise CThrow('ValueError')
        rd = E.reader(x)
        return E.arr([n], lambda i: rmed_val(rd, n, w, I(i)), E.dtype(x))
    if name == 'periodogram':
        return E.periodogram(args, kw)
    raise Unsupported('riptide.libcpp.%s' % name)
def rmed_val(rd, n, w, i):
    """median of the w samples around i, edges padded with the end samples"""
    h = idiv(w, I(2))
    def f(t):
        j = simp(i - h + t)
        return rd(ite(simp(j < 0), I(0), ite(simp(j >= n), simp(n - 1), j)))
    return median_of(f, w)
def flatreader(E, a):
    """element function by flat (row-major) index"""
    r = E.reader(a)
    c = E.cells[a.buf]
    if len(a.shape) == 1: return r
    if a.flat is not None and len(c.shape) == 1: f, off = c.fn, a.flat; return lambda q: f(simp(off + I(q)))
    sh = a.shape
    return lambda q: r(*unflat(sh, I(q)))
