"""Core of the deductive verifier: terms, lemma instantiation, prover, path exploration, obligations.

Terms are z3 expressions (Int, Real, Bool).  Proof obligations are decided by z3 (first) and cvc5
(second back end) after *manual* instantiation of the axioms of the theory symbols introduced here:

  idiv/imod   Euclidean quotient/remainder for a positive symbolic divisor
  SUM         prefix sums of a body expression (one symbol per canonical body)
  MAX/AMAX    maximum and arg-max of a body over an index range
  fsqrt, powi, flog   square root, integer power, logarithm
  rnd32/rnd64 IEEE rounding (only in 'fp' mode)
plus any quantified facts the contracts register (ctx.forall).
Every instantiated axiom is a valid fact about the mathematical function the symbol denotes.
"""
import os, sys, time, subprocess, tempfile, itertools, hashlib
import z3
from fractions import Fraction

z3.set_param('smt.random_seed', 1)

class Unsupported(Exception):
    """The construct is outside the verifier's reach."""

class VerifError(Exception):
    pass

class Deadline(Exception):
    pass

# ---------------------------------------------------------------- term helpers
def I(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    return x

def R(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, Fraction): return z3.RealVal('%d/%d' % (x.numerator, x.denominator))
    if isinstance(x, float):
        f = Fraction(x); return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    if z3.is_expr(x) and z3.is_int(x): return toreal(x)
    return x

def toreal(x):
    if z3.is_int_value(x): return z3.RealVal(x.as_long())
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_INT and False: return x
    return z3.ToReal(x)

def is_const(x):
    return z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x)

def cval(x):
    """python value of a constant term, else None"""
    if isinstance(x, (int, bool, Fraction)): return x
    if z3.is_int_value(x): return x.as_long()
    if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return None

def simp(x):
    return z3.simplify(x, som=False) if z3.is_expr(x) else x

_idiv = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
_imod = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())
_sqrt = z3.Function('fsqrt', z3.RealSort(), z3.RealSort())
_log = z3.Function('flog', z3.RealSort(), z3.RealSort())
_powi = z3.Function('powi', z3.RealSort(), z3.IntSort(), z3.RealSort())
_floor = z3.Function('ffloor', z3.RealSort(), z3.IntSort())
_rnd = {32: z3.Function('rnd32', z3.RealSort(), z3.RealSort()), 64: z3.Function('rnd64', z3.RealSort(), z3.RealSort())}
_sin = z3.Function('fsin', z3.RealSort(), z3.RealSort())

def idiv(a, b):
    a, b = simp(I(a)), simp(I(b))
    ca, cb = cval(a), cval(b)
    if cb is not None and cb > 0:
        if ca is not None: return z3.IntVal(ca // cb)
        if cb == 1: return a
        return a / b            # z3 div: floor for positive divisor
    return _idiv(a, b)

def imod(a, b):
    a, b = simp(I(a)), simp(I(b))
    ca, cb = cval(a), cval(b)
    if cb is not None and cb > 0:
        if ca is not None: return z3.IntVal(ca % cb)
        if cb == 1: return z3.IntVal(0)
        return a % b
    return _imod(a, b)

def fsqrt(a):
    return _sqrt(R(a))

def ffloor(x):
    """floor of a real as an Int"""
    x = simp(R(x))
    c = cval(x)
    if c is not None:
        import math
        return z3.IntVal(math.floor(c))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x.arg(0)
    return _floor(x)

def fceil(x):
    return simp(-ffloor(-R(x)))

def powi(a, n):
    a = R(a); n = I(n)
    c = cval(simp(n))
    if c is not None and 0 <= c <= 4:
        r = z3.RealVal(1)
        for _ in range(c): r = r * a
        return r
    return _powi(a, n)

def zmin(a, b): return z3.If(a <= b, a, b)
def zmax(a, b): return z3.If(a >= b, a, b)

def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.sort() != b.sort():
        a, b = R(a), R(b)
    if a.eq(b): return a
    return z3.If(c, a, b)

def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs: return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)

def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs: return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)

# ---------------------------------------------------------------- sub-term walking
_app_cache = {}
_keep = []
_fk = {}
def fkey(fn):
    """identity of a quantified fact (facts with equal keys are equal): its sample instance, or its code with all it captured"""
    k = _fk.get(id(fn))
    if k is None:
        sm = getattr(fn, 'sample', None)
        k = ('s', sm.get_id()) if sm is not None else _fp(fn, 0)
        _fk[id(fn)] = k; _keep.append((fn, sm))
    return k
def _fp(v, d):
    if z3.is_expr(v): _keep.append(v); return ('z', v.get_id())
    if v is None or isinstance(v, (str, int, float, bool)): return (type(v).__name__, v)
    if isinstance(v, (tuple, list)): return tuple(_fp(x, d) for x in v)
    if callable(v) and getattr(v, '__closure__', None) is not None and d < 6:
        try: return ('f', id(v.__code__), tuple(_fp(c.cell_contents, d + 1) for c in v.__closure__), tuple(_fp(x, d + 1) for x in (v.__defaults__ or ())))
        except ValueError: pass
    if callable(v) and hasattr(v, '__code__') and v.__closure__ is None: return ('f', id(v.__code__), (), tuple(_fp(x, d + 1) for x in (v.__defaults__ or ())))
    _keep.append(v)
    return ('o', id(v))
_node = {}      # ast id -> (interesting name or None, child ids); every visited top-level term is kept alive in _keep
_ref = {}       # ast id -> term, for the interesting ones
_OP = z3.Z3_OP_UNINTERPRETED

def _visit(x):
    """record x (not visited before) -> (name, children)"""
    name = None; ch = []
    if z3.is_app(x):
        ch = x.children()
        k = x.decl().kind()
        if k == _OP:
            if ch: name = x.decl().name()
        elif k == z3.Z3_OP_MUL:
            if x.sort() == z3.IntSort():
                if sum(cval(c) is None for c in ch) == 2: name = 'int*'
            elif any(z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DIV and cval(c.arg(1)) is None for c in ch): name = '*/'
        elif k == z3.Z3_OP_DIV:
            if cval(x.arg(1)) is None: name = '/'
        elif k == z3.Z3_OP_ITE: name = 'ite!'
    return name, ch

def uf_apps(e):
    """dict declname -> {id: app} of all uninterpreted applications (arity>=1) in e, and of the products,
    quotients and conditionals the lemma instantiation looks at"""
    k = e.get_id()
    r = _app_cache.get(k)
    if r is not None: return r
    out = {}
    seen = set(); st = [k]; terms = {k: e}
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i)
        nd = _node.get(i)
        if nd is None:
            x = terms[i]
            name, ch = _visit(x)
            ids = []
            for c in ch:
                ci = c.get_id(); ids.append(ci)
                if ci not in _node: terms[ci] = c
            nd = _node[i] = (name, ids)
            if name is not None: _ref[i] = x
        name, ids = nd
        if name is not None: out.setdefault(name, {})[i] = _ref[i]
        st.extend(ids)
    _app_cache[k] = out; _keep.append(e)
    return out

def has_ite(e): return 'ite!' in uf_apps(e)

def free_consts(e):
    seen = set(); st = [e]; out = {}
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == _OP: out[i] = x
            else: st.extend(x.children())
    return list(out.values())


def unreal(e):
    """integer term whose value equals the integral real term e (built from ToReal, constants, + and *), else None"""
    c = cval(e)
    if c is not None: return z3.IntVal(int(c)) if Fraction(c).denominator == 1 else None
    if not z3.is_app(e): return None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL: return e.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        ch = [unreal(c) for c in e.children()]
        if any(c is None for c in ch): return None
        if k == z3.Z3_OP_UMINUS: return -ch[0]
        r = ch[0]
        for c in ch[1:]: r = r + c if k == z3.Z3_OP_ADD else (r * c if k == z3.Z3_OP_MUL else r - c)
        return r
    return None

def ratio_form(x):
    """x = c + S*X/Y with c rational and S, X, Y integer terms -> (c, S, X, Y)"""
    ts = x.children() if z3.is_add(x) else [x]
    c = Fraction(0); q = None
    for t in ts:
        v = cval(t)
        if v is not None: c += Fraction(v); continue
        if q is not None: return None
        q = t
    if q is None: return None
    fs = _flatmul(q)
    dv = [i for i, f in enumerate(fs) if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_DIV and cval(f.arg(1)) is None]
    if len(dv) != 1: return None
    num = [f for i, f in enumerate(fs) if i != dv[0]]
    d = fs[dv[0]]
    nn = _flatmul(d.arg(0))
    if not num and len(nn) == 2: num, nn = [nn[0]], [nn[1]]
    S = z3.RealVal(1)
    for f in num: S = S * f
    X = z3.RealVal(1)
    for f in nn: X = X * f
    out = []
    for e in (S, X, d.arg(1)):
        u = unreal(e)
        if u is None: return None
        out.append(z3.simplify(u, som=True, sort_sums=True))
    S, X, Y = out
    return (c, S, X, Y)

def const_order(e):
    """free constants in deterministic traversal order"""
    seen = set(); out = []
    def go(x):
        i = x.get_id()
        if i in seen: return
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0: out.append(x)
            for c in x.children(): go(c)
    go(e)
    return out

def subst(e, pairs):
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    return z3.substitute(e, *pairs) if pairs else e

# ---------------------------------------------------------------- higher-order symbols keyed by a canonical body
class HO:
    """Registry: canonical body (with bound index placeholders) -> uninterpreted symbol."""
    table = {}        # key -> (uf, body, bound, params)
    byname = {}
    @classmethod
    def reset(cls):
        cls.table.clear(); cls.byname.clear()

_bound_n = [0]
def bound_var(i, sort=None):
    return z3.Const('b!%d' % i, sort if sort is not None else z3.IntSort())

def unique_bound(sort=None):
    _bound_n[0] += 1
    return z3.Const('u!%d' % _bound_n[0], sort if sort is not None else z3.IntSort())

def hosym(kind, fn, extra, outsort, nb=1):
    """Application of higher-order symbol `kind` on the function fn(idx...) with extra term args."""
    bs = [unique_bound() for i in range(nb)]
    body = fn(*bs)
    return hosym_body(kind, body, bs, extra, outsort)

def hosym_body(kind, body, bs, extra, outsort):
    if body.sort() == z3.IntSort() and outsort == z3.RealSort(): body = toreal(body)
    body = z3.simplify(body, som=True, sort_sums=True, mul_to_power=False)
    cs = [c for c in const_order(body) if not any(c.eq(b) for b in bs)]
    params = [z3.Const('pp!%d_%s' % (i, c.sort().name()), c.sort()) for i, c in enumerate(cs)]
    cb = [bound_var(i, b.sort()) for i, b in enumerate(bs)]
    canon = subst(body, list(zip(cs, params)) + list(zip(bs, cb)))
    canon = z3.simplify(canon, som=True, sort_sums=True, mul_to_power=False)
    key = (kind, canon.get_id(), tuple(p.sort().name() for p in params), tuple(e.sort().name() for e in extra))
    ent = HO.table.get(key)
    if ent is None:
        name = '%s@%d' % (kind, len(HO.table))
        uf = z3.Function(name, *([p.sort() for p in params] + [e.sort() for e in extra] + [outsort]))
        ent = (uf, canon, cb, params, kind)
        HO.table[key] = ent
        HO.byname[name] = ent
        _keep.append(canon)
    return ent[0](*(cs + list(extra))) if (cs or extra) else ent[0]()

def ho_body(app):
    """(kind, fn(idx..)->term, extra args) of a higher-order application"""
    ent = HO.byname[app.decl().name()]
    uf, canon, bs, params, kind = ent
    n = len(params)
    args = app.children()
    pr = list(zip(params, args[:n]))
    def fn(*idx):
        return subst(canon, pr + [(b, I(i)) for b, i in zip(bs, idx)])
    return kind, fn, args[n:]

def ssum(fn, lo, hi, sort=None):
    """sum of fn(k), lo<=k<hi, as difference of prefix sums (sort: IntSort or RealSort)"""
    sort = sort if sort is not None else z3.RealSort()
    cv = (lambda x: R(x)) if sort == z3.RealSort() else (lambda x: I(x))
    lo, hi = simp(I(lo)), simp(I(hi))
    if lo.eq(hi): return cv(0)
    cl, ch = cval(lo), cval(hi)
    if cl is not None and ch is not None and ch - cl <= 3:
        r = cv(0)
        for k in range(cl, ch): r = r + cv(fn(z3.IntVal(k)))
        return r
    u = unique_bound()
    body = cv(fn(u))
    body, sh = shift_body(body, u)
    hi_t = hosym_body('SUM', body, [u], [simp(hi + sh)], sort)
    lo_t = hosym_body('SUM', body, [u], [simp(lo + sh)], sort)
    return hi_t - lo_t

def shift_body(body, u):
    """body(u) -> (body', c) with body'(u + c) = body(u), so that array reads have the plain index u"""
    body = z3.simplify(body, som=True)
    best = None
    for nm, d in uf_apps(body).items():
        if nm in HO.byname or nm in ('idiv', 'imod', '/', '*/', 'int*', 'ffloor', 'fsqrt', 'powi', 'flog', 'rnd32', 'rnd64'): continue
        for app in d.values():
            for j, a in enumerate(app.children()):
                if not z3.is_int(a) or a.eq(u): continue
                c = simp(z3.simplify(a - u, som=True))
                if any(x.eq(u) for x in free_consts(c)): continue
                key = (nm, j, str(c))
                if best is None or key < best[0]: best = (key, c)
        # a plain occurrence of u as an array index wins
        for app in d.values():
            if any(a.eq(u) for a in app.children()): return body, z3.IntVal(0)
    if best is None: return body, z3.IntVal(0)
    c = best[1]
    return z3.simplify(z3.substitute(body, (u, u - c)), som=True), c

def smax(fn, lo, hi):
    """max of fn(k), lo<=k<hi (only meaningful for lo<hi)"""
    return hosym('MAX', lambda k: R(fn(k)), [simp(I(lo)), simp(I(hi))], z3.RealSort())

def ffa_round(s, n, m):
    """s*(n-1)/(m-1) rounded to the nearest integer (halves upwards)"""
    return ffloor(R(s) * ((R(n) - 1) / (R(m) - 1)) + R(Fraction(1, 2)))

def ffa(fn, a, m, p, s, k):
    """bin k of row s of the FFA transform of the m x p block of fn starting at a"""
    return hosym('FFA', lambda o: R(fn(o)), [simp(I(x)) for x in (a, m, p, s, k)], z3.RealSort())

def opaque(kind, fn, extra, outsort=None, nb=1):
    """uninterpreted functional of the function fn, e.g. an order statistic"""
    return hosym(kind, fn, [e if z3.is_expr(e) else I(e) for e in extra], outsort or z3.RealSort(), nb)

# ---------------------------------------------------------------- lemma instantiation
def _dist(a, b):
    d = simp(a - b)
    return cval(d)

EPS = {32: Fraction(1, 2**24), 64: Fraction(1, 2**53)}
EXACT = {32: 2**24, 64: 2**53}

def ffa_unfold(t):
    ch = t.children(); a, mm, p, s_, k_ = ch[-5:]; pre = ch[:-5]
    nh = simp(mm / z3.IntVal(2)); nt = simp(mm - nh)
    h = ffa_round(s_, nh, mm); tt = ffa_round(s_, nt, mm)
    uf = t.decl()
    return uf(*(pre + [a, nh, p, h, k_])) + uf(*(pre + [simp(a + nh * p), nt, p, tt, imod(k_ + s_ - tt, p)]))

class Lemmas:
    """instantiates theory axioms for the applications occurring in a set of formulas"""
    def __init__(self, foralls=()):
        self.foralls = foralls
        self.depth = {}

    def round(self, apps, done):
        out = []
        def add(key, f):
            if key in done: return
            done.add(key)
            if isinstance(f, (list, tuple)): out.extend(f)
            else: out.append(f)
        dm = {}
        for nm in ('idiv', 'imod'):
            for i, t in apps.get(nm, {}).items():
                a, b = t.arg(0), t.arg(1)
                dm.setdefault(b.get_id(), {})[a.get_id()] = (a, b)
        for bid, d in dm.items():
            items = list(d.values())
            for a, b in items:
                q, r = _idiv(a, b), _imod(a, b)
                add(('dm', a.get_id(), bid), [
                    z3.Implies(b > 0, z3.And(a == b * q + r, 0 <= r, r < b)),
                    z3.Implies(z3.And(0 <= a, a < b), z3.And(q == 0, r == a)),
                    z3.Implies(z3.And(b > 0, b <= a, a < 2 * b), z3.And(q == 1, r == a - b)),
                    z3.Implies(z3.And(b > 0, -b <= a, a < 0), z3.And(q == -1, r == a + b)),
                    z3.Implies(z3.And(b > 0, a >= 0), q >= 0),
                    z3.Implies(z3.And(b > 0, a >= b), q >= 1),
                    z3.Implies(z3.And(b > 0, a >= 0), z3.And(q <= a, b*q <= a))])
                if len(items) < 8:
                    # divisibility by the divisor: a = c*b for a product containing b
                    co = _factor(a, b)
                    if co is not None:
                        add(('dmf', a.get_id(), bid), z3.Implies(b > 0, z3.And(q == co[0] + _dq(co[1], b), r == _dr(co[1], b))))
            for (a, b), (c, _) in itertools.combinations(items, 2):
                if len(items) > 10: break
                q1, r1, q2, r2 = _idiv(a, b), _imod(a, b), _idiv(c, b), _imod(c, b)
                # a - c = delta ; if 0<=delta<b then remainders are related
                dl = a - c
                add(('dp', a.get_id(), c.get_id(), bid), [
                    z3.Implies(z3.And(b > 0, 0 <= dl, dl < b),
                               z3.Or(z3.And(r1 == r2 + dl, q1 == q2), z3.And(r1 == r2 + dl - b, q1 == q2 + 1))),
                    z3.Implies(z3.And(b > 0, -b < dl, dl < 0),
                               z3.Or(z3.And(r2 == r1 - dl, q1 == q2), z3.And(r2 == r1 - dl - b, q2 == q1 + 1))),
                    z3.Implies(z3.And(b > 0, a <= c), q1 <= q2), z3.Implies(z3.And(b > 0, c <= a), q2 <= q1),
                    z3.Implies(z3.And(b > 0, dl == b), z3.And(r1 == r2, q1 == q2 + 1)),
                    z3.Implies(z3.And(b > 0, dl == -b), z3.And(r1 == r2, q1 == q2 - 1))])
        pr = list(apps.get('int*', {}).values())
        if len(pr) <= 14:
            sp = [[c for c in t.children() if cval(c) is None] for t in pr]
            cf = [I(1) if len(t.children()) == 2 else simp(t.arg(0)) for t in pr]
            for i, j in itertools.combinations(range(len(pr)), 2):
                for x, y in ((0, 1), (1, 0)):
                    for u, w in ((0, 1), (1, 0)):
                        b = sp[i][x]
                        if not b.eq(sp[j][u]): continue
                        p_, q_ = sp[i][y], sp[j][w]
                        add(('mm', pr[i].get_id(), pr[j].get_id(), b.get_id()), [
                            z3.Implies(z3.And(b > 0, p_ < q_), b * p_ + b <= b * q_), z3.Implies(z3.And(b > 0, q_ < p_), b * q_ + b <= b * p_),
                            z3.Implies(p_ == q_, b * p_ == b * q_)])
            for t, c in zip(pr, sp):
                add(('mz', t.get_id()), [z3.Implies(z3.And(c[0] >= 0, c[1] >= 0), c[0] * c[1] >= 0), z3.Implies(z3.And(c[0] >= 1, c[1] >= 1), z3.And(c[0] * c[1] >= c[0], c[0] * c[1] >= c[1]))])
        for i, t in apps.get('/', {}).items():
            a, b = t.arg(0), t.arg(1)
            add(('dv', i), [z3.Implies(b > 0, z3.And(t * b == a, z3.Implies(a >= 0, t >= 0), z3.Implies(a > 0, t > 0), z3.Implies(a <= 0, t <= 0), z3.Implies(a <= b, t <= 1), z3.Implies(a < b, t < 1), z3.Implies(a >= b, t >= 1), z3.Implies(a > b, t > 1)))])
        for i, t in apps.get('*/', {}).items():
            ch = t.children()
            js = [j for j, c in enumerate(ch) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DIV]
            q = ch[js[0]]; a, b = q.arg(0), q.arg(1)
            x = z3.RealVal(1)
            for j, c in enumerate(ch):
                if j != js[0]: x = x * c
            x = simp(x)
            add(('md', i), [z3.Implies(z3.And(b > 0, x >= 0, a >= 0), z3.And(t >= 0, t * b == x * a)),
                            z3.Implies(z3.And(b > 0, x >= 0, x <= b, a >= 0), t <= a), z3.Implies(z3.And(b > 0, x >= 0, a <= b), t <= x),
                            z3.Implies(z3.And(b > 0, x >= b, a >= 0), t >= a), z3.Implies(z3.And(b > 0, x == b), t == a)])
        for i, t in apps.get('fsqrt', {}).items():
            a = t.arg(0)
            add(('sq', i), [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)])
        fl = list(apps.get('ffloor', {}).values())
        for t in fl:
            x = t.arg(0)
            add(('fl', t.get_id()), [toreal(t) <= x, x < toreal(t) + 1])
        for t in fl:
            for u in fl:
                if t.get_id() < u.get_id():
                    add(('flm', t.get_id(), u.get_id()), [z3.Implies(t.arg(0) <= u.arg(0), t <= u), z3.Implies(u.arg(0) <= t.arg(0), u <= t)])
        pw = list(apps.get('powi', {}).values())
        for t in pw:
            a, n = t.arg(0), t.arg(1)
            add(('pw', t.get_id()), [z3.Implies(a > 0, t > 0), z3.Implies(n == 0, t == 1), z3.Implies(n == 1, t == a),
                                     z3.Implies(z3.And(a >= 1, n >= 0), t >= 1), z3.Implies(z3.And(a > 1, n >= 1), t >= a),
                                     z3.Implies(z3.And(a > 0, n >= 1), t == a * _powi(a, n - 1)) if cval(n) is None and False else z3.BoolVal(True)])
        for t, u in itertools.combinations(pw, 2):
            if t.arg(0).eq(u.arg(0)):
                a, n, k = t.arg(0), t.arg(1), u.arg(1)
                add(('pw2', t.get_id(), u.get_id()), [
                    z3.Implies(n == k + 1, t == u * a), z3.Implies(k == n + 1, u == t * a),
                    z3.Implies(z3.And(a >= 1, n <= k), t <= u), z3.Implies(z3.And(a >= 1, k <= n), u <= t),
                    z3.Implies(z3.And(a > 1, n < k), t * a <= u), z3.Implies(z3.And(a > 1, k < n), u * a <= t)])
        lg = list(apps.get('flog', {}).values())
        for t in lg:
            add(('lg', t.get_id()), [z3.Implies(t.arg(0) == 1, t == 0), z3.Implies(t.arg(0) > 1, t > 0), z3.Implies(z3.And(t.arg(0) > 0, t.arg(0) < 1), t < 0)])
        for t, u in itertools.combinations(lg, 2):
            a, b = t.arg(0), u.arg(0)
            add(('lg2', t.get_id(), u.get_id()), [z3.Implies(z3.And(0 < a, a < b), t < u), z3.Implies(z3.And(0 < b, b < a), u < t)])
        for w in (32, 64):
            rs = list(apps.get('rnd%d' % w, {}).values())
            for t in rs:
                x = t.arg(0); e = R(EPS[w])
                fs = [z3.Implies(x >= 0, z3.And(t >= x * (1 - e), t <= x * (1 + e))),
                      z3.Implies(x <= 0, z3.And(t <= x * (1 - e), t >= x * (1 + e))),
                      z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0)]
                # exact on small integers, and monotone around them
                fx = ffloor(x)
                if not (z3.is_app(fx) and fx.decl().name() == 'ffloor'):   # x is ToReal(int)
                    fs.append(z3.Implies(z3.And(fx <= EXACT[w], fx >= -EXACT[w]), t == x))
                for c in (1,):
                    fs += [z3.Implies(x >= c, t >= c), z3.Implies(x <= c, t <= c)]
                add(('rn', t.get_id()), fs)
            if len(rs) <= 14:
                for t, u in itertools.combinations(rs, 2):
                    a, b = t.arg(0), u.arg(0)
                    add(('rn2', t.get_id(), u.get_id()), [z3.Implies(a <= b, t <= u), z3.Implies(b <= a, u <= t)])
        # higher-order symbols
        ho = {}
        for nm, d in apps.items():
            if nm in HO.byname:
                for t in d.values(): ho.setdefault(nm, []).append(t)
        for nm, ts in ho.items():
            kind = HO.byname[nm][4]; npar = len(HO.byname[nm][3])
            if kind == 'SUM':
                groups = {}
                for t in ts:
                    groups.setdefault(tuple(c.get_id() for c in t.children()[:npar]), []).append(t)
                for g in groups.values():
                    for t, u in itertools.combinations(g, 2):
                        n1, n2 = t.children()[-1], u.children()[-1]
                        c = _dist(n2, n1)
                        _, fn, _x = ho_body(t)
                        if c is not None and 0 < abs(c) <= 3:
                            if c < 0: t, u, n1, n2, c = u, t, n2, n1, -c
                            cv = R if t.sort() == z3.RealSort() else I
                            add(('su', t.get_id(), u.get_id()), u == t + sum([cv(fn(simp(n1 + k))) for k in range(c)], cv(0)))
                        elif c is None:
                            cv = R if t.sort() == z3.RealSort() else I
                            add(('se', t.get_id(), u.get_id()), [
                                z3.Implies(n1 == n2, t == u),
                                z3.Implies(n2 == n1 + 1, u == t + cv(fn(n1))),
                                z3.Implies(n1 == n2 + 1, t == u + cv(fn(n2)))])
            elif kind == 'FFA':
                for t in ts:
                    ch = t.children(); a, mm, p, s_, k_ = ch[-5:]; pre = ch[:-5]
                    _, fn, _x = ho_body(t)
                    add(('ffa1', t.get_id()), z3.Implies(mm == 1, t == R(fn(simp(a + k_)))))
                    dep = self.depth.get(t.get_id(), 0)
                    if dep <= 1:
                        nh = simp(mm / z3.IntVal(2)); nt = simp(mm - nh)
                        h = ffa_round(s_, nh, mm); tt = ffa_round(s_, nt, mm)
                        uf = t.decl()
                        A = uf(*(pre + [a, nh, p, h, k_]))
                        B = uf(*(pre + [simp(a + nh * p), nt, p, tt, imod(k_ + s_ - tt, p)]))
                        for x in (A, B): self.depth.setdefault(x.get_id(), dep + 1); _keep.append(x)
                        add(('ffa', t.get_id()), z3.Implies(mm >= 2, t == A + B))
            elif kind == 'MAX':
                for t in ts:
                    lo, hi = t.children()[-2:]
                    _, fn, _x = ho_body(t)
                    am = z3.Function('AMAX' + nm, *[c.sort() for c in t.children()] + [z3.IntSort()])(*t.children())
                    add(('mx', t.get_id()), z3.Implies(lo < hi, z3.And(lo <= am, am < hi, R(fn(am)) == t)))
                    add(('mx1', t.get_id()), z3.Implies(hi == lo + 1, t == R(fn(lo))))
                for t, u in itertools.combinations(ts, 2):
                    a, b = t.children(), u.children()
                    if all(x.eq(y) for x, y in zip(a[:-2], b[:-2])) and a[-2].eq(b[-2]):
                        _, fn, _x = ho_body(t)
                        lo = a[-2]
                        for x, y, p, q in ((a[-1], b[-1], t, u), (b[-1], a[-1], u, t)):
                            add(('mxs', p.get_id(), q.get_id()), z3.Implies(z3.And(lo < x, y == x + 1), q == z3.If(R(fn(x)) > p, R(fn(x)), p)))
        for decls, fn in self.foralls:
            pools = [list(apps.get(d, {}).values()) for d in decls]
            for combo in itertools.product(*pools):
                key = ('fa', id(fn)) + tuple(t.get_id() for t in combo)
                if key in done: continue
                f = fn(*combo)
                if f is not None: add(key, f)
        return out

def _flatmul(t):
    if z3.is_mul(t):
        out = []
        for c in t.children(): out += _flatmul(c)
        return out
    return [t]

def _unmod(a, b):
    """replace summands c*imod(y, b) by c*y (same residue modulo b); None if there are none"""
    a = z3.simplify(a, som=True)
    terms = a.children() if z3.is_add(a) else [a]
    hit = False; out = []
    for t in terms:
        fs = _flatmul(t)
        j = [i for i, f in enumerate(fs) if z3.is_app(f) and f.decl().name() == 'imod' and f.arg(1).eq(b)]
        if j and all(cval(f) is not None for i, f in enumerate(fs) if i != j[0]):
            hit = True
            r = fs[j[0]].arg(0)
            for i, f in enumerate(fs):
                if i != j[0]: r = r * f
            out.append(r)
        else: out.append(t)
    return simp(sum(out[1:], out[0])) if hit else None

def _factor(a, b):
    """a = co*b + rest syntactically -> (co, rest), when a is a sum of products"""
    a = z3.simplify(a, som=True)
    terms = a.children() if z3.is_add(a) else [a]
    co = []; rest = []
    for t in terms:
        fs = _flatmul(t)
        j = [i for i, f in enumerate(fs) if f.eq(b)]
        if j:
            r = [f for i, f in enumerate(fs) if i != j[0]]
            p = z3.IntVal(1)
            for f in r: p = p * f
            co.append(p)
        else: rest.append(t)
    if not co: return None
    return simp(sum(co[1:], co[0])), simp(sum(rest[1:], rest[0])) if rest else z3.IntVal(0)

def _dq(x, b): return z3.IntVal(0) if cval(x) == 0 else _idiv(x, b)
def _dr(x, b): return z3.IntVal(0) if cval(x) == 0 else _imod(x, b)

# ---------------------------------------------------------------- prover
CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'

class Stats:
    def __init__(self):
        self.queries = 0; self.z3_time = 0.0; self.cvc5_time = 0.0; self.cvc5_q = 0; self.cached = 0
STATS = Stats()

class Prover:
    def __init__(self, timeout=4000, use_cvc5=True, deadline=None):
        self.timeout = timeout; self.use_cvc5 = use_cvc5
        self.cache = {}
        self.deadline = deadline
        self.backend = None

    def normreal(self, fs):
        """x*(a/b) -> (x*a)/b with the numerator expanded"""
        out = []
        for f in fs:
            for rnd in range(6):
                ap = uf_apps(f).get('*/', {})
                dv = {i: t for i, t in uf_apps(f).get('/', {}).items() if z3.is_mul(t.arg(0)) or z3.is_add(t.arg(0))}
                if not ap and not dv: break
                pairs = []
                for t in list(ap.values()):
                    ch = t.children()
                    js = [j for j, c in enumerate(ch) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DIV and cval(c.arg(1)) is None]
                    q = ch[js[0]]; x = q.arg(0)
                    for j, c in enumerate(ch):
                        if j != js[0]: x = x * c
                    pairs.append((t, z3.simplify(x, som=True, sort_sums=True) / q.arg(1)))
                for t in dv.values():
                    n = z3.simplify(t.arg(0), som=True, sort_sums=True)
                    if not n.eq(t.arg(0)): pairs.append((t, n / t.arg(1)))
                if not pairs: break
                f = z3.substitute(f, *pairs)
            out.append(f)
        return out

    def positive(self, b, hyps):
        c = cval(b)
        if c is not None: return c > 0
        key = ('pos', b.get_id(), tuple(h.get_id() for h in hyps))
        r = self.cache.get(key)
        if r is None:
            s = z3.Solver(); s.set('timeout', 1000)
            for h in hyps: s.add(h)
            s.add(b <= 0)
            r = s.check() == z3.unsat
            self.cache[key] = r; _keep.append(b)
        return r

    def normdiv(self, fs, hyps):
        """idiv(b*c + r, b) -> c + idiv(r, b), imod(b*c + r, b) -> imod(r, b) for divisors b known to be positive"""
        for rnd in range(8):
            apps = {}
            for f in fs:
                for nm in ('idiv', 'imod'):
                    apps.update(uf_apps(f).get(nm, {}))
            pairs = []
            for t in apps.values():
                a, b = t.arg(0), t.arg(1)
                if t.decl().name() == 'imod':
                    um = _unmod(a, b)
                    if um is not None and self.positive(b, hyps):
                        pairs.append((t, _imod(um, b))); continue
                elif z3.is_app(a) and a.decl().name() == 'imod' and a.arg(1).eq(b) and self.positive(b, hyps):
                    pairs.append((t, z3.IntVal(0))); continue
                if cval(a) in (0, -1) and self.positive(b, hyps):
                    neg = cval(a) == -1
                    if t.decl().name() == 'idiv': pairs.append((t, z3.IntVal(-1 if neg else 0)))
                    else: pairs.append((t, simp(b - 1) if neg else z3.IntVal(0)))
                    continue
                co = _factor(a, b)
                if co is None: continue
                if not self.positive(b, hyps): continue
                if t.decl().name() == 'idiv': pairs.append((t, simp(co[0] + _dq(co[1], b))))
                else: pairs.append((t, _dr(co[1], b)))
            if not pairs: return fs
            # innermost first: only rewrite apps that contain no other rewritten app
            ids = {p[0].get_id() for p in pairs}
            inner = []
            for t, r in pairs:
                sub = set()
                for c in t.children():
                    for nm in ('idiv', 'imod'): sub |= set(uf_apps(c).get(nm, {}).keys())
                if not (sub & ids): inner.append((t, r))
            fs = [z3.simplify(z3.substitute(f, *inner)) for f in fs]
        return fs

    def expand(self, hyps, goal, foralls, rounds=3):
        fs = [h for h in hyps] + [z3.Not(goal)]
        if any('idiv' in uf_apps(f) or 'imod' in uf_apps(f) for f in fs): fs = self.normdiv(fs, hyps)
        lem = Lemmas(foralls)
        done = set(); extra = []
        nr = lambda l: l
        if any('/' in uf_apps(f) or 'FFA' in str(list(uf_apps(f).keys())) for f in fs):
            apps = {}
            for f in fs:
                for nm, d in uf_apps(f).items():
                    if nm in ('/', '*/'): apps.setdefault(nm, {}).update(d)
            extra = self.normreal(lem.round(apps, done))
            fs = self.normreal(fs)
            def nr(l):
                ap = {}
                for f in l:
                    for nm, d in uf_apps(f).items():
                        if nm in ('/', '*/'): ap.setdefault(nm, {}).update(d)
                more = Lemmas([]).round(ap, done) if ap else []
                return self.normreal(l + more)
        for r in range(rounds):
            apps = {}
            for f in fs + extra:
                for nm, d in uf_apps(f).items():
                    apps.setdefault(nm, {}).update(d)
            new = lem.round(apps, done)
            new = [n for n in new if not z3.is_true(n)]
            if not new: break
            extra += nr(new)
            if len(extra) > 3000: break
        return fs, extra

    def fakey(self, foralls):
        return tuple(fkey(fn) for d, fn in foralls)
    def valid(self, hyps, goal, foralls=(), timeout=None, strong=True, want_model=False):
        """True (proved) / False (counter-model found) / None (unknown)"""
        goal = simp(goal) if z3.is_expr(goal) else z3.BoolVal(bool(goal))
        self.backend = 'simplifier'
        if z3.is_true(goal): return True
        if self.deadline and time.time() > self.deadline: raise Deadline('prover deadline')
        for h in hyps:
            if h.eq(goal): return True
        key = (tuple(sorted(set(h.get_id() for h in hyps))), goal.get_id(), self.fakey(foralls), strong)
        hit = self.cache.get(key)
        if hit is not None and not want_model:
            STATS.cached += 1; self.backend = hit[1]
            return hit[0]
        if z3.is_and(goal) and strong:
            ok = True; hs = list(hyps)
            for g in goal.children():
                r = self.valid(hs, g, foralls, timeout, strong, want_model)
                if r is not True: ok = r; break
                hs.append(simp(g))
            self.cache[key] = (ok, self.backend); _keep.append(goal)
            return ok
        if z3.is_implies(goal) and strong:
            return self.valid(list(hyps) + [goal.arg(0)], goal.arg(1), foralls, timeout, strong, want_model)
        t0 = time.time()
        STATS.queries += 1
        res = None
        tmo = timeout or self.timeout
        if strong is True and z3.is_eq(goal) and any(nm in uf_apps(goal) for nm in ('/', '*/')) and self.field_eq(hyps, self.norm_terms(hyps, goal), foralls, tmo=300):
            self.backend = 'ring normalisation'
            self.cache[key] = (True, self.backend); _keep.append(goal); _keep.extend(hyps)
            return True
        if any('/' in uf_apps(f) for f in list(hyps) + [goal]):
            gen = self.generalise(list(hyps) + [z3.Not(goal)])
            if gen is not None:
                ng = [f for f in gen]
                fs, extra = self.expand(ng, z3.BoolVal(False), foralls, rounds=1 if not strong else 2)
                s = z3.Solver(); s.set('timeout', int(tmo if strong != True else min(tmo, 1500))); s.add(*fs, *extra)
                if s.check() == z3.unsat: res = True
                STATS.z3_time += time.time() - t0; t0 = time.time()
                self.backend = 'z3'
                if res is True or not strong:
                    self.cache[key] = (res, self.backend); _keep.append(goal); _keep.extend(hyps)
                    return res
        fs, extra = self.expand(hyps, goal, foralls, rounds=1 if not strong else 3)
        for rnd, ex in (((1, None), ) if strong else ()):
            pass
        s = z3.Solver()
        s.set('timeout', int(tmo if strong != True else min(tmo, 1500)))
        for f in fs: s.add(f)
        for f in extra: s.add(f)
        r = s.check()
        self.model = None
        if r == z3.unsat: res = True
        elif r == z3.sat:
            res = False; self.model = s.model()
        STATS.z3_time += time.time() - t0
        self.backend = 'z3'
        if res is None and strong and z3.is_eq(goal) and any(nm in uf_apps(goal) for nm in ('/', '*/')) and self.field_eq(hyps, self.norm_terms(hyps, goal), foralls): res = True
        if res is None and strong and strong != 'sub':
            g2 = self.reduce_goal(hyps, goal, foralls, tmo)
            if g2 is not None:
                if z3.is_true(g2): res = True; self.backend = 'z3'
                elif z3.is_eq(g2) and self.field_eq(hyps, g2, foralls): res = True; self.backend = 'ring normalisation'
                elif not g2.eq(goal): res = self.valid(hyps, g2, foralls, timeout, 'sub')
        if res is None and strong:
            # second attempt: fewer lemmas, different arithmetic core
            for rounds, opts in ((3, {}), (1, {}), (2, {'arith.solver': 2}), (3, {'arith.nl.order': False})):
                t0 = time.time()
                fs2, ex2 = self.expand(hyps, goal, foralls, rounds=rounds)
                s = z3.Solver(); s.set('timeout', int(tmo))
                for k, v in opts.items():
                    try: s.set(k, v)
                    except z3.Z3Exception: pass
                s.add(*fs2, *ex2)
                r = s.check(); STATS.z3_time += time.time() - t0
                if r == z3.unsat: res = True; break
                if r == z3.sat and rounds >= 3: res = False; self.model = s.model(); break
            if res is None and self.use_cvc5:
                r = self.cvc5(fs + extra, tmo * 2)
                if r == 'unsat': res = True; self.backend = 'cvc5'
        self.cache[key] = (res, self.backend); _keep.append(goal); _keep.extend(hyps)
        return res

    def generalise(self, fs):
        """replace floor(c + s*(x/y)) terms by integer constants t, with the facts that define t over the
        integers (y*t <= c*y + s*x < y*t + y) and their standard consequences for 0 <= s <= y"""
        terms = {}
        for f in fs:
            for i, t in uf_apps(f).get('ffloor', {}).items(): terms[i] = t
        pairs = []; by = {}; facts = []
        for t in terms.values():
            r = ratio_form(t.arg(0))
            if r is None: continue
            c, S, X, Y = r
            key = (c, S.get_id(), X.get_id(), Y.get_id())
            if key not in by:
                by[key] = z3.Const('fr!%d' % len(by), z3.IntSort()); _keep.extend([S, X, Y])
                v = by[key]
                cn, cd = c.numerator, c.denominator
                facts.append(z3.Implies(Y > 0, z3.And(cd * Y * v <= cn * Y + cd * S * X, cn * Y + cd * S * X < cd * Y * v + cd * Y)))
                if 0 <= c < 1:
                    facts.append(z3.Implies(z3.And(Y > 0, 0 <= S, 0 <= X), v >= 0))
                    facts.append(z3.Implies(z3.And(Y > 0, 0 <= S, S <= Y, 0 <= X), v <= X))
                    facts.append(z3.Implies(z3.And(Y > 0, 0 <= S, 0 <= X, X <= Y), v <= S))
                    facts.append(z3.Implies(z3.And(Y > 0, S == 0), v == 0))
                    facts.append(z3.Implies(z3.And(Y > 0, S == Y), v == X))
            pairs.append((t, by[key]))
        if not pairs: return None
        ks = list(by.items())
        for (k1, v1), (k2, v2) in itertools.combinations(ks, 2):
            if k1[1] == k2[1] and k1[3] == k2[3] and k1[0] == k2[0] == Fraction(1, 2):
                t1 = [r for r in (ratio_form(t.arg(0)) for t in terms.values()) if r and (r[0], r[1].get_id(), r[2].get_id(), r[3].get_id()) == k1][0]
                t2 = [r for r in (ratio_form(t.arg(0)) for t in terms.values()) if r and (r[0], r[1].get_id(), r[2].get_id(), r[3].get_id()) == k2][0]
                _, S, X1, Y = t1; X2 = t2[2]
                facts.append(z3.Implies(z3.And(Y > 0, 0 <= S, S <= Y, 0 <= X1, 0 <= X2, X1 + X2 + 1 == Y), z3.And(v1 + v2 <= S, v1 + v2 >= S - 1)))
        return [z3.substitute(f, *pairs) for f in fs] + [z3.substitute(f, *pairs) for f in facts]

    def reduce_goal(self, hyps, goal, foralls, tmo):
        """decide conditions of if-then-else terms in the goal and identify equal applications (congruence)"""
        g = goal
        for rnd in range(12):
            ites = []
            seen = set(); st = [g]
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_ITE and not has_ite(x.arg(0)): ites.append(x)
                    st.extend(x.children())
            prs = []
            done = set()
            for x in ites[:12]:
                c = x.arg(0)
                if c.get_id() in done: continue
                done.add(c.get_id())
                if self.valid(hyps, c, foralls, tmo, 'sub') is True: prs.append((c, z3.BoolVal(True)))
                elif self.valid(hyps, simp(z3.Not(c)), foralls, tmo, 'sub') is True: prs.append((c, z3.BoolVal(False)))
            if not prs: break
            g = z3.simplify(z3.substitute(g, *prs))
            if z3.is_true(g): return g
        # congruence: applications of the same symbol with provably equal arguments
        if z3.is_eq(g):
            if self.max_eq(hyps, g, foralls, tmo): return z3.BoolVal(True)
            g = self.unfold_ffa(hyps, g, foralls, tmo)
            for rnd in range(4):
                g = self.norm_terms(hyps, g)
                if z3.is_true(g): return g
                L, Rr = uf_apps(g.arg(0)), uf_apps(g.arg(1))
                hit = None
                for nm in L:
                    if nm in ('/', '*/', 'int*', 'ffloor', 'idiv', 'imod'): continue
                    for a in L[nm].values():
                        kd = HO.byname[nm][4] if nm in HO.byname else None
                        for b in [y for n2, d2 in Rr.items() if n2 == nm or (kd and n2 in HO.byname and HO.byname[n2][4] == kd) for y in d2.values()]:
                            if b.decl().name() != nm:
                                if not any(b.get_id() == q.get_id() for d3 in L.values() for q in d3.values()) and (self.ho_equal(hyps, a, b, foralls, tmo) or kd == 'MAX' and self.max_eq(hyps, a == b, foralls, tmo)): hit = (b, a); break
                                continue
                            if a.get_id() == b.get_id() or a.get_id() in Rr.get(nm, {}) or b.get_id() in L.get(nm, {}): continue
                            if all(x.eq(y) or self.valid(hyps, x == y, foralls, 1000 if kd else tmo, 'sub') is True for x, y in zip(a.children(), b.children())) or (kd and self.ho_equal(hyps, a, b, foralls, tmo)):
                                hit = (b, a); break
                        if hit: break
                    if hit: break
                if not hit: break
                g = z3.simplify(z3.substitute(g, hit))
                if z3.is_true(g) or not z3.is_eq(g): return g
        return g

    def ho_equal(self, hyps, a, b, foralls, tmo):
        """extensionality: two applications of higher-order symbols of one kind denote the same value"""
        if a.decl().name() not in HO.byname or b.decl().name() not in HO.byname: return False
        ka, fa, xa = ho_body(a); kb, fb, xb = ho_body(b)
        if ka != kb or len(xa) != len(xb) or a.sort() != b.sort(): return False
        for x, y in zip(xa, xb):
            if not x.eq(y) and self.valid(hyps, x == y, foralls, tmo, 'sub') is not True: return False
        u = unique_bound()
        hy = list(hyps)
        if ka == 'MAX': hy += [xa[0] <= u, u < xa[1]]
        elif ka == 'SUM' and len(xa) == 1:
            # prefix sum over [0, n)
            if cval(xa[0]) == 0: return True
            if self.valid(hyps, xa[0] >= 0, foralls, tmo, False) is True: hy += [0 <= u, u < xa[0]]
        try: fu, gu = fa(u), fb(u)
        except Exception: return False
        if fu.eq(gu): return True
        return self.valid(hy, fu == gu, foralls, tmo, True) is True

    def max_eq(self, hyps, g, foralls, tmo):
        for e, M in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
            nm = M.decl().name()
            if nm not in HO.byname or HO.byname[nm][4] != 'MAX': continue
            if e.decl().name() in HO.byname and HO.byname[e.decl().name()][4] == 'MAX' and self.ho_equal(hyps, e, M, foralls, tmo): return True
            _, fn, (lo, hi) = ho_body(M)
            ms = [t for n2, d in uf_apps(e).items() if n2 in HO.byname and HO.byname[n2][4] == 'MAX' for t in d.values()]
            if not ms: continue
            ub = lambda t, i: (lambda k: z3.Implies(z3.And(k[2][0] <= i, i < k[2][1]), R(k[1](i)) <= t))(ho_body(t))
            # upper bound
            j = z3.Const('j!%s' % unique_bound().decl().name(), z3.IntSort())
            ok = True
            for cs in ([z3.And(lo < j, j < hi)], [j == lo, lo < hi]):
                js = j if len(cs) == 1 else lo
                h2 = list(hyps) + ([z3.And(lo < j, j < hi)] if len(cs) == 1 else [lo < hi])
                done = False
                for t in ms:
                    kt = ho_body(t)
                    for c in (js, js - 1, js + 1, kt[2][0], kt[2][1] - 1):
                        c = simp(c)
                        h3 = h2 + [ub(t, c)]
                        if self.valid(h3, R(fn(js)) <= e, foralls, tmo, 'sub') is True: done = True; break
                    if done: break
                if not done: ok = False; break
            if not ok: continue
            # attained
            for t in ms:
                kt = ho_body(t); tl, th = kt[2]
                am = z3.Function('AMAX' + t.decl().name(), *[c.sort() for c in t.children()] + [z3.IntSort()])(*t.children())
                base = list(hyps) + [tl <= am, am < th, t == R(kt[1](am))]
                if self.valid(hyps, tl < th, foralls, tmo, 'sub') is not True: continue
                at = lambda c: z3.And(lo <= c, c < hi, R(fn(simp(c))) == e)
                for c, d in ((am, lo), (am + 1, lo), (am - 1, hi - 1)):
                    inr = z3.And(lo <= c, c < hi)
                    if self.valid(base + [inr], R(fn(simp(c))) == e, foralls, tmo, 'sub') is True:
                        if self.valid(base, inr, foralls, tmo, 'sub') is True: return True
                        if self.valid(base + [z3.Not(inr)], at(simp(d)), foralls, tmo, 'sub') is True: return True
        return False

    def unfold_ffa(self, hyps, g, foralls, tmo):
        L, Rr = uf_apps(g.arg(0)), uf_apps(g.arg(1))
        for X, Y in ((L, Rr), (Rr, L)):
            for nm in list(X):
                if nm not in HO.byname or HO.byname[nm][4] != 'FFA': continue
                for t in X[nm].values():
                    others = list(Y.get(nm, {}).values())
                    mm = t.children()[-4]
                    if len(others) <= len(X[nm]) or any(u.children()[-4].eq(mm) for u in others): continue
                    if self.valid(hyps, mm >= 2, foralls, tmo, 'sub') is not True: continue
                    return z3.substitute(g, (t, ffa_unfold(t)))
        return g

    def field_eq(self, hyps, g, foralls, depth=0, tmo=1000):
        """equality of rational expressions, by cross-multiplication (every denominator proved nonzero) after case
        distinction on the conditions of if-then-else terms"""
        if not (z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()): return False
        seen = set(); st = [g]; c = None
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if len(seen) > 400: return False
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE and x.sort() == z3.RealSort() and not has_ite(x.arg(0)): c = x.arg(0); break
                st.extend(x.children())
        if c is not None:
            if depth > 3: return False
            for v in (True, False):
                h = c if v else simp(z3.Not(c))
                hs = list(hyps) + [h]
                g2 = z3.simplify(z3.substitute(g, (c, z3.BoolVal(v))))
                if z3.is_true(g2): continue
                if not self.field_eq(hs, g2, foralls, depth + 1, tmo) and self.valid(hs, g2, foralls, tmo, False) is not True: return False
            return True
        memo = {}; poly = {}
        class Stop(Exception): pass
        def norm(x):
            k = x.get_id()
            if k not in poly: poly[k] = z3.simplify(x, som=True, sort_sums=True); _keep.append(x)
            return poly[k]
        def nz(d):
            if cval(d) is not None: return cval(d) != 0
            return self.valid(hyps, d != 0, foralls, tmo, False) is True
        nzs = {}
        one = z3.RealVal(1)
        # rational form: (numerator, {denominator factor id: (factor, power)})
        def den(fs):
            r = one
            for f, n in fs.values():
                for _ in range(n): r = r * f
            return r
        def common(x, y):
            m = dict(x)
            for k, (f, n) in y.items():
                if k not in m or m[k][1] < n: m[k] = (f, n)
            return m
        def miss(m, x):
            r = one
            for k, (f, n) in m.items():
                for _ in range(n - x.get(k, (f, 0))[1]): r = r * f
            return r
        def factors(e, out):
            """factors of a denominator"""
            if z3.is_mul(e):
                for c in e.children(): factors(c, out)
                return
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_mul(e.arg(0)):
                for c in e.arg(0).children(): factors(z3.ToReal(c), out)
                return
            out.append(e)
        def tr(e):
            k = e.get_id()
            if k in memo: return memo[k]
            r = (e, {})
            if z3.is_app(e):
                kd = e.decl().kind()
                if kd == z3.Z3_OP_DIV:
                    n, dn = tr(e.arg(0)); fs = []
                    factors(e.arg(1), fs)
                    dn = dict(dn)
                    for f in fs:
                        fn, fd = tr(f)
                        if cval(fn) == 0: raise Stop()
                        n = n * den(fd)
                        if cval(fn) is not None: n = n / fn; continue
                        fn = norm(fn)
                        if fn.get_id() not in nzs: nzs[fn.get_id()] = nz(f if not fd else fn); _keep.append(fn)
                        if not nzs[fn.get_id()]: raise Stop()
                        dn[fn.get_id()] = (fn, dn.get(fn.get_id(), (fn, 0))[1] + 1)
                    r = (norm(n), dn)
                elif kd == z3.Z3_OP_TO_REAL and (z3.is_add(e.arg(0)) or z3.is_mul(e.arg(0)) or z3.is_sub(e.arg(0))):
                    r = tr(e.arg(0).decl().kind() == z3.Z3_OP_ADD and z3.Sum([z3.ToReal(c) for c in e.arg(0).children()]) or
                           e.arg(0).decl().kind() == z3.Z3_OP_MUL and z3.Product([z3.ToReal(c) for c in e.arg(0).children()]) or
                           z3.ToReal(e.arg(0).arg(0)) - z3.ToReal(e.arg(0).arg(1)))
                elif kd == z3.Z3_OP_TO_REAL and cval(e.arg(0)) is not None: r = (z3.RealVal(cval(e.arg(0))), {})
                elif kd == z3.Z3_OP_UMINUS:
                    n, dn = tr(e.arg(0)); r = (-n, dn)
                elif kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                    n, dn = tr(e.arg(0))
                    for c in e.children()[1:]:
                        n2, d2 = tr(c); m = common(dn, d2)
                        a, b = n * miss(m, dn), n2 * miss(m, d2)
                        n, dn = (a + b if kd == z3.Z3_OP_ADD else a - b), m
                    r = (norm(n), dn)
                elif kd == z3.Z3_OP_MUL:
                    n, dn = tr(e.arg(0))
                    for c in e.children()[1:]:
                        n2, d2 = tr(c); m = dict(dn)
                        for kk, (f, q) in d2.items(): m[kk] = (f, m.get(kk, (f, 0))[1] + q)
                        n, dn = n * n2, m
                    r = (norm(n), dn)
            memo[k] = r; _keep.append(e)
            return r
        try:
            n, dn = tr(g.arg(0)); n2, d2 = tr(g.arg(1))
            m = common(dn, d2)
            d = norm(n * miss(m, dn) - n2 * miss(m, d2))
        except Stop: return False
        return cval(d) == 0

    def norm_terms(self, hyps, g):
        return self.normdiv([g], hyps)[0]

    def cvc5(self, fs, tmo):
        t0 = time.time()
        s = z3.Solver(); s.add(*fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        txt = '\n'.join(l for l in txt.splitlines() if not l.startswith('; ') and 'set-info' not in l)
        STATS.cvc5_q += 1
        try:
            p = subprocess.run([CVC5, '--lang=smt2', '--tlimit=%d' % int(tmo), '--nl-ext-tplanes', '-'], input=txt, capture_output=True, text=True, timeout=tmo / 1000 + 5)
            out = p.stdout.strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            out = 'timeout'
        STATS.cvc5_time += time.time() - t0
        return out

# ---------------------------------------------------------------- context: path condition, decisions, obligations
class Path:
    __slots__ = ('facts', 'kinds', 'outcome', 'state', 'foralls')
    def __init__(self, facts, kinds, outcome, state, foralls):
        self.facts, self.kinds, self.outcome, self.state, self.foralls = facts, kinds, outcome, state, foralls
    def decisions(self): return [f for f, k in zip(self.facts, self.kinds) if k]
    def assumed(self):
        """(guard decisions so far, fact)"""
        out = []; g = []
        for f, k in zip(self.facts, self.kinds):
            if k: g.append(f)
            else: out.append((list(g), f))
        return out

class Obligation:
    __slots__ = ('name', 'status', 'backend', 'func', 'detail', 'time', 'kind')
    def __init__(self, name, status, backend, func, detail='', time=0.0, kind='assert'):
        self.name, self.status, self.backend, self.func, self.detail, self.time, self.kind = name, status, backend, func, detail, time, kind

class Ctx:
    def __init__(self, prover, mode='real'):
        self.prover = prover
        self.mode = mode
        self.pc = []
        self.pck = []               # parallel to pc: True for branch decisions, False for facts
        self.idx = []               # enclosing symbolic iteration indices
        self.foralls = []; self.defs = []
        self.trace = None; self.pos = 0
        self.fresh_n = 0
        self.quiet = 0              # >0: obligations are not recorded (discovery runs)
        self.obls = []
        self.obl_seen = {}
        self.func = '?'
        self.max_paths = 200
        self.assumptions = []
        self.fail_hyps = []
        self.cheap = 0

    def fresh(self, name, sort='Int'):
        """fresh symbol; inside loop bodies it is a function of the enclosing iteration indices"""
        self.fresh_n += 1
        s = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}[sort] if isinstance(sort, str) else sort
        nm = '%s!%d%s' % (name, self.fresh_n, s.name()[0])
        if self.idx:
            self._pos(nm)
            return z3.Function(nm, *([i.sort() for i in self.idx] + [s]))(*self.idx)
        return z3.Const(nm, s)

    def freshconst(self, name, s):
        self.fresh_n += 1
        return z3.Const('%s!%d%s' % (name, self.fresh_n, s.name()[0]), s)

    def _pos(self, nm):
        from dv import machine
        machine.IDXPOS[nm] = {i.get_id(): j for j, i in enumerate(self.idx)}

    def freshfn(self, name, argsorts, sort):
        """fresh function symbol (of the enclosing iteration indices and args)"""
        self.fresh_n += 1
        s = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}
        if self.idx: self._pos('%s!%d' % (name, self.fresh_n))
        f = z3.Function('%s!%d' % (name, self.fresh_n), *([i.sort() for i in self.idx] + [s[a] for a in argsorts] + [s[sort]]))
        ix = list(self.idx)
        g = lambda *a: f(*(ix + list(a)))
        g.decl = f; g.nidx = len(ix)
        return g

    def assume(self, f, dec=False):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if not z3.is_true(f):
            self.pc.append(f); self.pck.append(dec)

    def forall(self, decls, fn, sample=None):
        if sample is not None: fn.sample = sample
        self.foralls.append((decls, fn))

    def entails(self, f, timeout=None, strong=True):
        if isinstance(f, bool): return f
        if self.cheap: strong = False; timeout = min(timeout or 1000, 1000)
        return self.prover.valid(self.pc, f, self.foralls, timeout=timeout, strong=strong) is True

    def quick(self, f):
        return self.entails(f, timeout=1500, strong=False)

    def feasible(self):
        return self.prover.valid(self.pc, z3.BoolVal(False), self.foralls, timeout=1500, strong=False) is not True

    def decide(self, cond):
        """truth value of a branch condition on this path"""
        if isinstance(cond, bool): return cond
        cond = simp(cond)
        c = cval(cond)
        if c is not None: return bool(c)
        if self.quick(cond): return True
        if self.quick(z3.Not(cond)): return False
        if self.trace is None:
            raise Unsupported('undecided branch outside exploration: %s' % str(cond)[:200])
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
        else:
            v = True
            self.trace.append(v)
        self.pos += 1
        self.assume(cond if v else z3.Not(cond), dec=True)
        return v

    def explore(self, run, snapshot, restore):
        """run `run()` on every feasible path. yields list of (path_facts, outcome, end_state)"""
        base = snapshot()
        pc0 = list(self.pc); pk0 = list(self.pck); fa0 = list(self.foralls); fr0 = self.fresh_n
        saved = (self.trace, self.pos)
        out = []
        stack = [[]]
        maxf = fr0
        try:
            while stack:
                pre = stack.pop()
                restore(base)
                self.pc = list(pc0); self.pck = list(pk0); self.foralls = list(fa0); self.fresh_n = fr0
                self.trace = list(pre); self.pos = 0
                try:
                    o = run()
                    out.append(Path(self.pc[len(pc0):], self.pck[len(pc0):], o, snapshot(), self.foralls[len(fa0):]))
                except Infeasible:
                    pass
                maxf = max(maxf, self.fresh_n)
                for i in range(len(pre), len(self.trace)):
                    stack.append(self.trace[:i] + [not self.trace[i]])
                if len(out) > self.max_paths: raise Unsupported('too many paths')
        finally:
            restore(base)
            self.pc = pc0; self.pck = pk0; self.foralls = fa0
            self.trace, self.pos = saved
            self.fresh_n = maxf
        return out

    def oblige(self, name, goal, kind='assert', detail=''):
        """record and discharge a proof obligation under the current path condition"""
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if self.quiet: return True
        t0 = time.time()
        try:
            r = self.prover.valid(self.pc, goal, self.foralls)
            if r is not True and self.defs: r = self.prover.valid(self.pc + self.defs, goal, self.foralls)
            be = self.prover.backend
        except Deadline:
            r, be = None, 'deadline'
        st = 'proved' if r is True else ('refuted' if r is False else 'unknown')
        if st != 'proved':
            detail = (detail + ' goal: ' + str(goal)[:1500])
            self.fail_hyps.append((self.func, name, list(self.pc), goal, list(self.foralls)))
        self.record(name, st, be, detail, time.time() - t0, kind)
        if st != 'proved': self.assume(goal)   # continue to find further failures
        return st == 'proved'

    def record(self, name, st, be='engine', detail='', dt=0.0, kind='assert'):
        if self.quiet: return
        key = (self.func, name)
        prev = self.obl_seen.get(key)
        if prev is None:
            o = Obligation(name, st, be, self.func, detail if st != 'proved' else '', dt, kind)
            self.obls.append(o); self.obl_seen[key] = o
            o.time = dt
        else:
            prev.time += dt
            if st != 'proved' and prev.status == 'proved':
                prev.status, prev.detail, prev.backend = st, detail, be

class Infeasible(Exception):
    pass
