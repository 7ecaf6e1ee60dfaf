"""Values of the Python front end."""
import z3
from dv.core import *
from dv.machine import *

def fsub(fn, pairs, ar=1):
    """fn with the substitution applied to everything it captured"""
    cache = []
    def g(*i):
        if not cache:
            us = [unique_bound() for _ in range(ar)]
            cache.append((us, vsubst(fn(*us), pairs)))
        us, b = cache[0]
        return vsubst(b, [(u, I(x)) for u, x in zip(us, i)])
    return g

_oid = [0]
def newoid():
    _oid[0] += 1; return _oid[0]

class Opq:
    """opaque object of class cls, identified by a term"""
    __slots__ = ('cls', 'id')
    def __init__(self, cls, id): self.cls, self.id = cls, id
    def vsubst(self, p): return Opq(self.cls, subst(self.id, p))
    def vmerge(self, c, o):
        if isinstance(o, Opq) and o.cls == self.cls: return Opq(self.cls, ite(c, self.id, o.id))
    def havoc(self, ctx, name): return Opq(self.cls, ctx.freshconst('h_' + name, z3.IntSort()))
    def __eq__(self, o): return isinstance(o, Opq) and o.cls == self.cls and o.id.eq(self.id)
    def __hash__(self): return hash((self.cls, self.id.get_id()))
    def __repr__(self): return '<%s %s>' % (self.cls, self.id)

class Rec:
    """immutable record (named tuple, frozen object); also a tuple when order is given"""
    __slots__ = ('cls', 'f', 'order')
    def __init__(self, cls, f, order=None): self.cls, self.f, self.order = cls, dict(f), order
    def vsubst(self, p): return Rec(self.cls, {k: vsubst(v, p) for k, v in self.f.items()}, self.order)
    def vmerge(self, c, o):
        if isinstance(o, Rec) and o.cls == self.cls and o.f.keys() == self.f.keys():
            return Rec(self.cls, {k: vmerge(c, v, o.f[k]) for k, v in self.f.items()}, self.order)
    def __eq__(self, o): return isinstance(o, Rec) and o.cls == self.cls and o.f.keys() == self.f.keys() and all(same(v, o.f[k]) for k, v in self.f.items())
    __hash__ = None
    def __repr__(self): return '%s%r' % (self.cls, self.f)

class ORef:
    """reference to a heap object (cell holds a StructVal)"""
    __slots__ = ('id',)
    def __init__(self, id): self.id = id
    def __eq__(self, o): return isinstance(o, ORef) and o.id == self.id
    def __hash__(self): return hash(('o', self.id))
    def __repr__(self): return '<obj %d>' % self.id

class LST:
    """list value: n0 elements fn(i) followed by segments (n, fn, v); mutable lists are kept up to date through their identity oid"""
    __slots__ = ('oid', 'n0', 'fn', 'tail', 'tup')
    def __init__(self, oid, n0, fn, tail=(), tup=False):
        self.oid, self.n0, self.fn, self.tail, self.tup = oid, simp(I(n0)), fn, tuple(tail), tup
    @staticmethod
    def of(items, oid=None, tup=False): return LST(oid or newoid(), 0, None, [(ONE, None, v) for v in items], tup)
    def concrete(self): return cval(self.n0) == 0 and all(f is None for n, f, v in self.tail)
    def items(self): return [v for n, f, v in self.tail]
    @property
    def n(self):
        r = self.n0
        for n, f, v in self.tail: r = r + n
        return simp(r)
    def seg_at(self, k, o):
        n, f, v = self.tail[k]
        return v if f is None else f(o)
    def at(self, i, ctx=None):
        """element i (0 <= i < n assumed)"""
        i = simp(I(i))
        ci = cval(i)
        if self.concrete() and ci is not None and 0 <= ci < len(self.tail): return self.tail[ci][2]
        if not self.tail: return self.fn(i)
        if ctx is not None and cval(self.n0) != 0 and ctx.quick(i < self.n0): return self.fn(i)
        pos = self.n0; alts = []
        for k, (n, f, v) in enumerate(self.tail):
            end = simp(pos + n)
            if cval(n) != 0: alts.append((simp(i < end), self.seg_at(k, simp(i - pos))))
            pos = end
        r = alts[-1][1]
        for c, v in reversed(alts[:-1]): r = vmerge(c, v, r)
        if cval(self.n0) != 0: r = vmerge(simp(i < self.n0), self.fn(i), r)
        return r
    def append(self, v): return LST(self.oid, self.n0, self.fn, self.tail + ((ONE, None, v),))
    def extend(self, n, fn): return LST(self.oid, self.n0, self.fn, self.tail + ((simp(I(n)), fn, None),))
    def vsubst(self, p):
        return LST(self.oid, subst(self.n0, p), self.fn if self.fn is None or isinstance(self.fn, HavocFn) else fsub(self.fn, p), [(simp(subst(n, p)), None if f is None else fsub(f, p), vsubst(v, p) if f is None else None) for n, f, v in self.tail], self.tup)
    def vmerge(self, c, o):
        if not isinstance(o, LST) or not self.n0.eq(o.n0) or not (self.fn is o.fn or cval(self.n0) == 0): return None
        a, b = self.tail, o.tail
        j = 0
        while j < len(a) and j < len(b) and a[j] is b[j]: j += 1
        pre, a, b = a[:j], a[j:], b[j:]
        if len(a) == len(b) and all(x[1] is None for x in a) and all(x[1] is None for x in b):
            return LST(self.oid, self.n0, self.fn, pre + tuple((ONE, None, vmerge(c, x[2], y[2])) for x, y in zip(a, b)), self.tup)
        def gd(g, s):
            n, f, v = s
            return (ite(g, n, z3.IntVal(0)), f if f is not None else (lambda o: v), None)
        return LST(self.oid, self.n0, self.fn, pre + tuple(gd(c, s) for s in a) + tuple(gd(simp(z3.Not(c)), s) for s in b), self.tup)
    def havoc(self, ctx, name): return LST(self.oid, ctx.freshconst('hl_n', z3.IntSort()), HavocFn(), (), self.tup)
    def __repr__(self): return 'LST#%d(%s, %r)' % (self.oid, self.n0, self.tail)

ONE = z3.IntVal(1)

class HavocFn:
    """contents of a list at the head of a loop (not readable)"""
    def __call__(self, i): raise Unsupported('a list extended in a loop is read in the same loop')

class DCT:
    """dictionary with concrete keys over an optional unknown rest"""
    __slots__ = ('oid', 'ent', 'rest')
    def __init__(self, oid, ent, rest=None): self.oid, self.ent, self.rest = oid, dict(ent), rest
    def set(self, k, v):
        d = dict(self.ent); d[k] = v; return DCT(self.oid, d, self.rest)
    def vsubst(self, p): return DCT(self.oid, {k: vsubst(v, p) for k, v in self.ent.items()}, vsubst(self.rest, p) if self.rest is not None else None)
    def vmerge(self, c, o):
        if isinstance(o, DCT) and o.ent.keys() == self.ent.keys() and same(self.rest, o.rest):
            return DCT(self.oid, {k: vmerge(c, v, o.ent[k]) for k, v in self.ent.items()}, self.rest)
    def __repr__(self): return 'DCT#%d%r+%r' % (self.oid, self.ent, self.rest)

class AMap:
    """attribute of the objects of a class, as a function of their identity"""
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn
    def vsubst(self, p): return AMap(fsub(self.fn, p))
    def vmerge(self, c, o):
        a, b = self.fn, o.fn
        return AMap(lambda i: vmerge(c, a(i), b(i)))
    def set(self, t, v):
        f = self.fn
        return AMap(lambda i: vmerge(simp(i == t), v, f(i)))
    def havoc(self, ctx):
        x = self.fn(unique_bound())
        return AMap(havoc_map(x, ctx))

def havoc_map(x, ctx):
    if z3.is_expr(x):
        f = ctx.freshfn('hm', ['Int'], x.sort().name()); return lambda i: f(i)
    if isinstance(x, Opq):
        f = ctx.freshfn('hm', ['Int'], 'Int'); return lambda i: Opq(x.cls, f(i))
    if isinstance(x, tuple):
        fs = [havoc_map(y, ctx) for y in x]; return lambda i: tuple(g(i) for g in fs)
    if isinstance(x, Rec):
        fs = {k: havoc_map(y, ctx) for k, y in x.f.items()}; return lambda i: Rec(x.cls, {k: g(i) for k, g in fs.items()}, x.order)
    if isinstance(x, LibObj):
        fs = [havoc_map(y, ctx) for y in x.args]; return lambda i: LibObj(x.name, [g(i) for g in fs])
    raise Unsupported('attribute of unknown shape')

class NDC:
    """content of an array buffer"""
    __slots__ = ('shape', 'fn', 'dtype', 'via')
    def __init__(self, shape, fn, dtype, via=None):
        self.shape, self.fn, self.dtype = tuple(simp(I(s)) for s in shape), fn, dtype
        self.via = via          # (offset, shape, fn): the contents as seen through the contiguous view last written
    def vsubst(self, p): return NDC([subst(s, p) for s in self.shape], fsub(self.fn, p, len(self.shape)), self.dtype)
    def vmerge(self, c, o):
        if isinstance(o, NDC) and o.dtype == self.dtype and len(o.shape) == len(self.shape):
            f, g = self.fn, o.fn
            return NDC([ite(c, a, b) for a, b in zip(self.shape, o.shape)], lambda *i: vmerge(c, f(*i), g(*i)), self.dtype)

class ND:
    """array: a view of buffer `buf` (cell with an NDC); imap: index tuple -> buffer index tuple (None: identity)"""
    __slots__ = ('buf', 'shape', 'imap', 'flat', 'cont')
    def __init__(self, buf, shape, imap=None, flat=None, cont=False):
        self.buf, self.shape, self.imap, self.flat = buf, tuple(simp(I(s)) for s in shape), imap, flat
        self.cont = bool(cont) or imap is None or flat is not None        # C-contiguous
    def vsubst(self, p):
        im = self.imap
        return ND(self.buf, [subst(s, p) for s in self.shape], None if im is None else fsubt(im, p, len(self.shape)), None if self.flat is None else subst(self.flat, p), self.cont)
    def __eq__(self, o): return self is o
    __hash__ = None
    def __repr__(self): return 'ND#%s%s' % (self.buf, self.shape)

def fsubt(fn, pairs, ar):
    def g(*i):
        us = [unique_bound() for _ in range(ar)]
        return tuple(vsubst(x, list(pairs) + []) if False else subst(subst(x, pairs), [(u, I(y)) for u, y in zip(us, i)]) for x in fn(*us))
    return g

class Lib:
    """library module, function or class"""
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Lib) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'Lib(%s)' % self.name

class LibObj:
    """instance of a library class, described by constructor arguments"""
    __slots__ = ('name', 'args', 'kw')
    def __init__(self, name, args=(), kw=None): self.name, self.args, self.kw = name, tuple(args), dict(kw or {})
    def __repr__(self): return 'LibObj(%s%r)' % (self.name, self.args)
    def vsubst(self, p): return LibObj(self.name, [vsubst(a, p) for a in self.args], {k: vsubst(v, p) for k, v in self.kw.items()})
    def vmerge(self, c, o):
        if isinstance(o, LibObj) and o.name == self.name and len(o.args) == len(self.args) and not self.kw and not o.kw:
            return LibObj(self.name, [vmerge(c, a, b) for a, b in zip(self.args, o.args)])

class PyFunc:
    __slots__ = ('mod', 'node', 'env', 'self_', 'cls', 'qual', 'defaults')
    def __init__(self, mod, node, env=None, self_=None, cls=None, qual=None, defaults=None):
        self.mod, self.node, self.env, self.self_, self.cls, self.qual, self.defaults = mod, node, env, self_, cls, qual, defaults
    def bind(self, o): return PyFunc(self.mod, self.node, self.env, o, self.cls, self.qual, self.defaults)
    def __repr__(self): return '<function %s>' % self.qual

class PyClass:
    __slots__ = ('mod', 'node', 'name')
    def __init__(self, mod, node): self.mod, self.node, self.name = mod, node, node.name
    def __eq__(self, o): return isinstance(o, PyClass) and o.node is self.node
    def __hash__(self): return id(self.node)
    def __repr__(self): return '<class %s>' % self.name

class BoundM:
    """method of a library-like value"""
    __slots__ = ('obj', 'name', 'place')
    def __init__(self, obj, name, place=None): self.obj, self.name, self.place = obj, name, place

class ModVal:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name

class Native:
    """function given by the verifier (e.g. the body of a decorator of functools)"""
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn

class Seq:
    """lazy sequence (range, zip, enumerate, map...): length and element function"""
    __slots__ = ('n', 'fn')
    def __init__(self, n, fn): self.n, self.fn = simp(I(n)), fn
    def vsubst(self, p): return Seq(subst(self.n, p), fsub(self.fn, p))

# ---------------------------------------------------------------- lists extended by a loop
def _loop_closed(v0, m, sym, pv, k, unresolved):
    """list built by a loop: value at the start of iteration k; pv = sym + segments appended by iteration k"""
    ctx = m.ctx
    if not isinstance(pv, LST) or not isinstance(sym, LST): return None
    if not pv.n0.eq(sym.n0) or pv.fn is not sym.fn: return None
    segs = pv.tail
    ns = [s[0] for s in segs]
    if any(occurs(n, unresolved + [sym.n0]) for n in ns): return None
    L = z3.IntVal(0)
    for n in ns: L = L + n
    L = simp(L)
    def elem(o):
        one = LST(0, 0, None, segs)
        return one.at(o)
    probe = unique_bound()
    e0 = elem(probe) if segs else None
    if not vfree_py(e0, unresolved): return None
    base = v0.n
    if cval(L) is not None and cval(L) >= 0:
        c = cval(L)
        tot = simp(base + k * c)
        def fn(i, c=c):
            i = simp(I(i)) - base
            if c == 1: return vsubst(e0, list(cl_pairs) + [(k, simp(i)), (probe, z3.IntVal(0))])
            j = idiv(i, z3.IntVal(c)); return vsubst(e0, list(cl_pairs) + [(k, j), (probe, imod(i, z3.IntVal(c)))])
        cl_pairs = [(sym.n0, tot)]
        closed = LST(v0.oid, v0.n0, v0.fn, v0.tail + (((simp(k * c)), (lambda o, fn=fn: fn(simp(I(o) + base))), None),), v0.tup)
        return closed, [(sym.n0, tot)], (lambda K: ([], []))
    # varying number of elements per iteration
    # symbols are shared between loops that append under the same condition
    cum = hocum(k, L)
    iot = hoiota(k, L)
    tot = simp(base + cum(k))
    cl_pairs = [(sym.n0, tot)]
    def fn(i):
        i = simp(I(i)); j = iot(i)
        return vsubst(e0, cl_pairs_at(j) + [(k, j), (probe, simp(i - cum(j)))])
    def cl_pairs_at(j): return [(sym.n0, simp(base + cum(j)))]
    closed = LST(v0.oid, v0.n0, v0.fn, v0.tail + ((cum(k), fn, None),), v0.tup)
    return closed, [(sym.n0, tot)], (lambda K: cum_facts(cum, iot, k, L, K))

def hocum(k, L):
    f = lambda t: hosym('CUM', lambda u: subst(L, [(k, u)]), [simp(I(t))], z3.IntSort())
    return f
def hoiota(k, L):
    return lambda t: hosym('IOTA', lambda u: subst(L, [(k, u)]), [simp(I(t))], z3.IntSort())

def cum_facts(cum, iot, k, L, K):
    """cum(t) = number of elements produced by iterations < t; iot(i) = iteration that produced element i"""
    cn, inn = cum(k).decl().name(), iot(k).decl().name()
    np_ = cum(k).num_args() - 1
    Lt = lambda t: subst(L, [(k, simp(t))])
    same_ = lambda a, b: all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1]))
    ref = cum(k)
    mine = lambda a: same_(a, ref)
    def f_cum(a):
        if not mine(a): return None
        t = a.arg(np_)
        return z3.And(z3.Implies(t == 0, a == 0), z3.Implies(z3.And(0 <= t, t <= K), z3.And(a >= 0, cum(K) >= a)),
                      z3.Implies(z3.And(0 <= t, t < K), z3.And(cum(t + 1) == a + Lt(t), Lt(t) >= 0)))
    def f_iot(a):
        if not mine(a): return None
        i = a.arg(np_)
        return z3.Implies(z3.And(0 <= i, i < cum(K)), z3.And(0 <= a, a < K, cum(a) <= i, i < cum(a) + Lt(a), cum(a + 1) == cum(a) + Lt(a)))
    def f_cc(a, b):
        if not mine(a) or not mine(b) or a.eq(b): return None
        s, t = a.arg(np_), b.arg(np_)
        return z3.Implies(z3.And(0 <= s, s < t, t <= K), z3.And(a + Lt(s) <= b))
    def f_ii(a, b):
        if not mine(a) or not mine(b) or a.eq(b): return None
        i, j = a.arg(np_), b.arg(np_)
        return z3.Implies(z3.And(0 <= i, i < j, j < cum(K)), z3.And(a <= b, z3.Implies(Lt(a) <= 1, a < b)))
    def f_ic(a, b):
        if not mine(a) or not mine(b): return None
        i, t = a.arg(np_), b.arg(np_)
        return z3.Implies(z3.And(0 <= t, t < K, b <= i, i < b + Lt(t)), a == t)
    return ([cum(z3.IntVal(0)) == 0, cum(K) >= 0], [([cn], f_cum), ([inn], f_iot), ([cn, cn], f_cc), ([inn, inn], f_ii), ([inn, cn], f_ic)])

def vfree_py(v, consts):
    if v is None or not consts: return True
    if z3.is_expr(v): return not occurs(v, consts)
    if isinstance(v, Opq): return not occurs(v.id, consts)
    if isinstance(v, Rec): return all(vfree_py(x, consts) for x in v.f.values())
    if isinstance(v, (tuple, list)): return all(vfree_py(x, consts) for x in v)
    if isinstance(v, DCT): return all(vfree_py(x, consts) for x in v.ent.values())
    if isinstance(v, NDC): return not any(occurs(x, consts) for x in v.shape) and vfree_py(v.fn(*[unique_bound() for _ in v.shape]), consts)
    if isinstance(v, ND):
        if any(occurs(x, consts) for x in v.shape) or v.flat is not None and occurs(v.flat, consts): return False
        return v.imap is None or all(vfree_py(x, consts) for x in v.imap(*[unique_bound() for _ in v.shape]))
    if isinstance(v, LST):
        if occurs(v.n0, consts) or any(occurs(n, consts) for n, f, w in v.tail): return False
        u = unique_bound()
        return (v.fn is None or vfree_py(v.fn(u), consts)) and all(vfree_py(w if f is None else f(u), consts) for n, f, w in v.tail)
    if isinstance(v, Seq): return not occurs(v.n, consts) and vfree_py(v.fn(unique_bound()), consts)
    if isinstance(v, AMap): return vfree_py(v.fn(unique_bound()), consts)
    if isinstance(v, LibObj): return all(vfree_py(x, consts) for x in v.args) and all(vfree_py(x, consts) for x in v.kw.values())
    if isinstance(v, (Ptr, StructVal)): return vfree(v, consts)
    return isinstance(v, (str, bytes, bool, int, float, Fraction, Lib, ORef, ModVal, PyClass)) or isinstance(v, PyFunc) and v.env is None and v.self_ is None

LST.loop_closed = lambda self, m, sym, pv, k, unresolved: _loop_closed(self, m, sym, pv, k, unresolved)
def _loop_step(self, want): return self.n == want.n if isinstance(want, LST) else z3.BoolVal(False)
LST.loop_step = _loop_step
