"""Abstract machine shared by the C++ and Python front ends: heap, path exploration and loop summaries."""
import z3
from dv.core import *
from dv import core

class Abrupt(Exception): pass
class CReturn(Abrupt):
    def __init__(self, v): self.v = v
class CBreak(Abrupt): pass
class CContinue(Abrupt): pass
class CThrow(Abrupt):
    """a C++ or Python exception of the verified program"""
    def __init__(self, etype, msg=''): self.etype, self.msg = etype, msg
    def __str__(self): return 'throw %s(%s)' % (self.etype, self.msg)

# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj, self.off = obj, simp(I(off))
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.off)
class StructVal:
    __slots__ = ('tname', 'f')
    def __init__(self, tname, f): self.tname, self.f = tname, dict(f)
    def with_(self, k, v):
        d = dict(self.f); d[k] = v; return StructVal(self.tname, d)
    def __repr__(self): return '%s%r' % (self.tname, self.f)
class _Unknown:
    def __repr__(self): return '<unknown>'
UNKNOWN = _Unknown()

def same(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and a.off.eq(b.off)
    if isinstance(a, StructVal) and isinstance(b, StructVal):
        return a.tname == b.tname and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, (tuple, list)) and type(a) == type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if z3.is_expr(a) or z3.is_expr(b): return False
    try: return type(a) == type(b) and bool(a == b)
    except Exception: return False

def vsubst(v, pairs):
    if not pairs: return v
    if z3.is_expr(v): return subst(v, pairs)
    if isinstance(v, Ptr): return Ptr(v.obj, subst(v.off, pairs))
    if isinstance(v, StructVal): return StructVal(v.tname, {k: vsubst(x, pairs) for k, x in v.f.items()})
    if isinstance(v, tuple): return tuple(vsubst(x, pairs) for x in v)
    if hasattr(v, 'vsubst'): return v.vsubst(pairs)
    return v

def vmerge(c, a, b):
    """value of (c ? a : b)"""
    if same(a, b): return a
    if isinstance(a, (int, float, Fraction)) and not z3.is_expr(a) and z3.is_expr(b): a = z3.BoolVal(a) if isinstance(a, bool) else (I(a) if z3.is_int(b) else R(a))
    if isinstance(b, (int, float, Fraction)) and not z3.is_expr(b) and z3.is_expr(a): b = z3.BoolVal(b) if isinstance(b, bool) else (I(b) if z3.is_int(a) else R(b))
    if z3.is_expr(a) and z3.is_expr(b): return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return Ptr(a.obj, ite(c, a.off, b.off))
    if isinstance(a, StructVal) and isinstance(b, StructVal) and a.tname == b.tname and a.f.keys() == b.f.keys():
        return StructVal(a.tname, {k: vmerge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    if hasattr(a, 'vmerge'):
        r = a.vmerge(c, b)
        if r is not None: return r
    return UNKNOWN

SORT = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}

class Arr:
    """immutable array content; chain of region writes over a base"""
    __slots__ = ('n', 'sort', 'parent', 'lo', 'hi', 'g', 'gi', 'kind', 'depth', 'name')
    def __init__(self, n, sort, parent=None, lo=None, hi=None, g=None, gi=None, kind='base', name=''):
        self.n, self.sort, self.parent, self.lo, self.hi, self.g, self.gi, self.kind, self.name = n, sort, parent, lo, hi, g, gi, kind, name
        self.depth = 0 if parent is None else parent.depth + 1
    def write(self, lo, hi, g, gi=None, kind='write'):
        return Arr(self.n, self.sort, self, simp(I(lo)), simp(I(hi)), g, gi, kind, self.name)
    def inside(self, off):
        if self.hi.eq(simp(self.lo + 1)): return simp(off == self.lo)
        return simp(z3.And(self.lo <= off, off < self.hi))
    def sel(self, off, ctx=None, ini=False):
        off = simp(I(off)); node = self
        acc = []
        while node.parent is not None:
            c = node.inside(off)
            if z3.is_true(c): break
            if not z3.is_false(c):
                if ctx is not None:
                    if ctx.quick(c): break
                    if ctx.quick(z3.Not(c)):
                        node = node.parent; continue
                acc.append((c, node))
            node = node.parent
        f = (lambda nd: (nd.gi(off) if nd.gi is not None else z3.BoolVal(True))) if ini else (lambda nd: nd.g(off))
        r = f(node)
        for c, nd in reversed(acc): r = ite(c, f(nd), r)
        return r
    def writes_since(self, start):
        out = []; node = self
        while node is not start:
            if node is None: return None
            out.append(node); node = node.parent
        return out[::-1]

def base_arr(n, sort, g, gi=None, name=''):
    return Arr(I(n), sort, g=g, gi=gi, name=name)

def lin_in(t, k):
    """t = t0 + c*k with constant integer c: returns (t0, c) else None"""
    t0 = simp(subst(t, [(k, z3.IntVal(0))])); 
    d = simp(subst(t, [(k, k + 1)]) - t)
    c = cval(d)
    if c is None or not isinstance(c, int): 
        d = z3.simplify(d, som=True); c = cval(d)
        if c is None: return None
    return t0, c

def occurs(e, consts):
    ids = {c.get_id() for c in consts}
    return any(x.get_id() in ids for x in free_consts(e))

def vfree(v, consts):
    """does value v mention any of consts"""
    if z3.is_expr(v): return not occurs(v, consts)
    if isinstance(v, Ptr): return not occurs(v.off, consts)
    if isinstance(v, StructVal): return all(vfree(x, consts) for x in v.f.values())
    if isinstance(v, tuple): return all(vfree(x, consts) for x in v)
    return True

class Machine:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cells = {}; self.arrs = {}; self.nid = 1
        self.depth = 0
        self.unroll_limit = 40
        self.klist = []

    # -- state
    def snap(self): return (dict(self.cells), dict(self.arrs), self.nid)
    def restore(self, s): self.cells, self.arrs, self.nid = dict(s[0]), dict(s[1]), s[2]
    def new(self, v=UNKNOWN):
        i = self.nid; self.nid += 1; self.cells[i] = v; return i
    def new_arr(self, arr):
        i = self.nid; self.nid += 1; self.arrs[i] = arr; return i
    def sym_arr(self, name, n, sort='Real', ini=True):
        f = self.ctx.freshfn(name, ['Int'], sort)
        a = base_arr(n, sort, lambda o: f(o), None if ini else (lambda o: z3.BoolVal(False)), name)
        i = self.new_arr(a)
        return i
    def explore(self, run): return self.ctx.explore(run, self.snap, self.restore)

    def range_facts(self, u, lo, hi):
        return [I(lo) <= u, u < I(hi)]
    def under(self, facts, fn):
        """evaluate fn() under extra facts (not recorded)"""
        c = self.ctx; n = len(c.pc)
        for f in facts: c.assume(f)
        try: return fn()
        finally:
            del c.pc[n:]; del c.pck[n:]
    def sum(self, fn, lo, hi, sort=None):
        lo, hi = I(lo), I(hi)
        return ssum(lambda k: self.under([lo <= k, k < hi], lambda: fn(k)), lo, hi, sort)
    def max(self, fn, lo, hi):
        lo, hi = I(lo), I(hi)
        return smax(lambda k: self.under([lo <= k, k < hi], lambda: fn(k)), lo, hi)

    # -- flattening of cells into scalar leaves
    def leaves(self, v, path=()):
        if isinstance(v, StructVal):
            for k, x in v.f.items(): yield from self.leaves(x, path + (k,))
        elif isinstance(v, tuple):
            for k, x in enumerate(v): yield from self.leaves(x, path + (k,))
        else: yield path, v
    def getleaf(self, v, path):
        for p in path: v = v.f[p] if isinstance(v, StructVal) else v[p]
        return v
    def setleaf(self, v, path, x):
        if not path: return x
        if isinstance(v, StructVal): return v.with_(path[0], self.setleaf(v.f[path[0]], path[1:], x))
        l = list(v); l[path[0]] = self.setleaf(l[path[0]], path[1:], x); return tuple(l)

    # ------------------------------------------------------------ loops
    loop_hook = None
    def loop(self, cond, body, inc, name='loop', after=None):
        """while (cond()) { body(); inc(); }   body may raise CContinue / Abrupt"""
        ctx = self.ctx
        # concrete unrolling while the condition is constant
        n = 0
        while True:
            c = cond()
            if isinstance(c, bool): c = z3.BoolVal(c)
            c = simp(c)
            if z3.is_false(c): return
            if not z3.is_true(c): break
            if n >= self.unroll_limit: break
            s = self.snap()
            try:
                try: body()
                except CContinue: pass
            except CBreak: return
            inc(); n += 1
        if not z3.is_true(c) and ctx.quick(z3.Not(c)): return
        if self.loop_hook is not None and self.loop_hook(cond, body, inc, name): return
        self.summarise(cond, body, inc, name)

    def run_iter(self, body, inc):
        try: body()
        except CContinue: pass
        except Abrupt as e: return e
        inc()
        return None

    def diff(self, s0, s1):
        """locations of s0 whose value differs in s1"""
        mc, ma = set(), set()
        for i, v in s0[0].items():
            w = s1[0].get(i, v)
            if w is v: continue
            self._diffv(v, w, (i, ()), mc)
        for i, a in s0[1].items():
            if s1[1].get(i, a) is not a: ma.add(i)
        return mc, ma
    def _diffv(self, v, w, loc, out):
        if same(v, w): return
        if isinstance(v, StructVal) and isinstance(w, StructVal) and v.f.keys() == w.f.keys():
            for k in v.f: self._diffv(v.f[k], w.f[k], (loc[0], loc[1] + (k,)), out)
        elif isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
            for k in range(len(v)): self._diffv(v[k], w[k], (loc[0], loc[1] + (k,)), out)
        else: out.add(loc)

    def havoc_leaf(self, v, name, post=None):
        ctx = self.ctx
        if v is UNKNOWN or v is None: return UNKNOWN
        if isinstance(v, bool): v = z3.BoolVal(v)
        if isinstance(v, (int,)): v = I(v)
        if isinstance(v, (float, Fraction)): v = R(v)
        if z3.is_expr(v): return ctx.freshconst('h_' + name, v.sort())
        if isinstance(v, Ptr): return Ptr(v.obj, ctx.freshconst('h_' + name, z3.IntSort()))
        if hasattr(v, 'havoc'): return v.havoc(ctx, name)
        return UNKNOWN

    def apply_leafs(self, st, vals):
        cells = dict(st[0])
        for (i, p), v in vals.items(): cells[i] = self.setleaf(cells[i], p, v)
        return (cells, st[1]) + tuple(st[2:])

    def leaf_invariant(self, loc, sym, v0):
        """type facts about a havoced leaf (front end)"""
        return []

    def summarise(self, cond, body, inc, name):
        ctx = self.ctx
        S0 = self.snap()
        self.depth += 1
        if self.depth > 6: raise Unsupported('loop nesting')
        try:
            self._summarise(S0, cond, body, inc, name)
        finally:
            self.depth -= 1

    def _summarise(self, S0, cond, body, inc, name):
        ctx = self.ctx
        base_pc, base_pk, base_fa = list(ctx.pc), list(ctx.pck), list(ctx.foralls)
        fr0 = ctx.fresh_n
        ctx.fresh_n += 1
        bodybase = fr0 + 500        # symbols created in the body have the same names in all phases
        k = z3.Const('k!%d' % fr0, z3.IntSort())
        idx0 = list(ctx.idx)
        # ---------------- phase A: which locations does an iteration modify
        modc, moda = {}, set()
        for rnd in range(8):
            ctx.pc, ctx.pck, ctx.foralls = list(base_pc), list(base_pk), list(base_fa)
            ctx.idx = idx0 + [k]; ctx.quiet += 1; ctx.cheap += 1
            try:
                vals = {}
                for loc in modc:
                    v0 = self.getleaf(S0[0][loc[0]], loc[1])
                    sym = self.havoc_leaf(v0, 'l')
                    vals[loc] = sym
                st = self.apply_leafs(S0, vals)
                arrs = dict(st[1])
                for i in moda: arrs[i] = self.havoc_arr(S0[1][i])
                st = (st[0], arrs) + tuple(st[2:])
                self.restore(st)
                for loc, sym in vals.items():
                    for f in self.leaf_invariant(loc, sym, self.getleaf(S0[0][loc[0]], loc[1])): ctx.assume(f)
                ctx.assume(0 <= k)
                frs = ctx.fresh_n; ctx.fresh_n = bodybase
                c = cond()
                ctx.assume(c if z3.is_expr(c) else z3.BoolVal(c))
                st1 = self.snap()
                paths = self.explore(lambda: self.run_iter(body, inc))
                ctx.fresh_n = frs
            finally:
                ctx.quiet -= 1; ctx.idx = list(idx0); ctx.cheap -= 1
            newc, newa = set(), set()
            for p in paths:
                mc, ma = self.diff(st1, p.state)
                newc |= {l for l in mc if l[0] in S0[0]}; newa |= {a for a in ma if a in S0[1]}
            if newc <= set(modc) and newa <= moda: break
            # merge nested locations: keep the coarsest
            for l in newc:
                modc[l] = True
            for l in list(modc):
                if any(l != q and l[0] == q[0] and l[1][:len(q[1])] == q[1] for q in modc): del modc[l]
            moda |= newa
        else: raise Unsupported('loop modified set does not stabilise')
        normal = [p for p in paths if p.outcome is None]
        ctx.pc, ctx.pck, ctx.foralls = list(base_pc), list(base_pk), list(base_fa)
        if not normal:                  # the first iteration never completes
            self.restore(S0); ctx.fresh_n = fr0 + 1
            c = cond()
            if not ctx.decide(c if z3.is_expr(c) else z3.BoolVal(c)): return
            r = self.run_iter(body, inc)
            if r is None: raise Unsupported('loop analysis: completing first iteration')
            if isinstance(r, CBreak): return
            raise r
        # ---------------- phase B: closed forms of the scalar locations
        V = {}      # sym id -> (loc, sym)
        for loc, v in vals.items():
            s = v.off if isinstance(v, Ptr) else v
            if z3.is_expr(s): V[loc] = s
        syms = list(V.values())
        post = {}
        for loc in modc:
            pv = None
            for p in reversed(normal):
                x = self.getleaf(p.state[0][loc[0]], loc[1])
                pv = x if pv is None else vmerge(conj(p.decisions()), x, pv)
            post[loc] = pv
        closed = {}         # loc -> value at start of iteration k (or UNKNOWN)
        last = {}           # loc -> expression of post in iteration k (for dead/last-value locations)
        pairs = []          # (sym, closed term)
        defs = []           # facts about recurrence symbols
        pending = [l for l in modc]
        klist0, self.klist = self.klist, []
        inpc = lambda: list(base_pc) + [k >= 0]
        progress = True
        carr = {}
        while pending and progress:
            progress = False
            for loc in list(pending):
                v0 = self.getleaf(S0[0][loc[0]], loc[1])
                pv = post[loc]
                if pv is None: 
                    closed[loc] = v0; pending.remove(loc); progress = True; continue
                unresolved = [V[l] for l in pending if l in V]
                own = [V[loc]] if loc in V else []
                pvs = vsubst(pv, pairs)
                if hasattr(v0, 'loop_closed') and hasattr(pvs, 'loop_closed') and loc in vals:
                    r = v0.loop_closed(self, vals[loc], pvs, k, unresolved)
                    if r is not None:
                        closed[loc], prs, fcs = r
                        pairs.extend(prs); self.klist.append(fcs)
                        pending.remove(loc); progress = True
                    continue
                if pvs is UNKNOWN or not isinstance(pvs, Ptr) and not z3.is_expr(pvs) and not isinstance(pvs, (int, float, bool)):
                    closed[loc] = UNKNOWN; last[loc] = pvs; pending.remove(loc); progress = True; continue
                if vfree(pvs, [s for s in unresolved]):
                    # last value
                    last[loc] = pvs
                    prev = vsubst(pvs, [(k, k - 1)])
                    if v0 is UNKNOWN or (isinstance(pvs, Ptr) and (not isinstance(v0, Ptr) or v0.obj != pvs.obj)):
                        closed[loc] = UNKNOWN
                    else:
                        closed[loc] = vmerge(k == 0, v0, prev)
                    if loc in V and closed[loc] is not UNKNOWN:
                        t = closed[loc].off if isinstance(closed[loc], Ptr) else closed[loc]
                        pairs.append((V[loc], t if t.sort() == V[loc].sort() else R(t)))
                    pending.remove(loc); progress = True; continue
                others = [s for s in unresolved if not (own and s.eq(own[0]))]
                if own and vfree(pvs, others):
                    t = self.solve_rec(own[0], v0, pvs, k, inpc())
                    if t is not None:
                        term, dfs = t
                        defs += dfs
                        closed[loc] = Ptr(v0.obj, term) if isinstance(v0, Ptr) else term
                        pairs.append((own[0], term))
                        pending.remove(loc); progress = True; continue
        if pending:
            # mutually recursive or unrecognised: recurrence symbols of k
            for loc in pending:
                v0 = self.getleaf(S0[0][loc[0]], loc[1])
                if loc not in V: closed[loc] = UNKNOWN; continue
                f = ctx.freshfn('rec', ['Int'], V[loc].sort().name())
                t = f(k)
                closed[loc] = Ptr(v0.obj, t) if isinstance(v0, Ptr) else t
                pairs.append((V[loc], t))
                v0t = v0.off if isinstance(v0, Ptr) else (R(v0) if V[loc].sort() == z3.RealSort() else I(v0) if not isinstance(v0, bool) else z3.BoolVal(v0))
                defs.append(('init', f(z3.IntVal(0)) == v0t))
                defs.append(('rec', f, loc))
            recs = [(d[1], d[2]) for d in defs if d[0] == 'rec']
            for f, loc in recs:
                pv = vsubst(post[loc], pairs)
                pv = pv.off if isinstance(pv, Ptr) else pv
                if z3.is_expr(pv): defs.append(('step', f, z3.simplify(pv)))
        kl, self.klist = self.klist, klist0
        return self._phase2(S0, cond, body, inc, name, k, fr0, bodybase, idx0, base_pc, base_pk, base_fa, modc, moda, closed, last, pairs, defs, normal, paths, kl)

    def havoc_arr(self, a):
        f = self.ctx.freshfn('A', ['Int'], a.sort)
        fi = None
        if not self.fully_init(a):
            h = self.ctx.freshfn('Ai', ['Int'], 'Bool')
            fi = lambda o: h(o)
        return Arr(a.n, a.sort, g=lambda o: f(o), gi=fi, kind='havoc', name=a.name)
    def fully_init(self, a):
        while a is not None:
            if a.gi is not None: return False
            a = a.parent
        return True

    def solve_rec(self, v, v0, e, k, pc):
        """closed form in k of v(0)=v0, v(j+1)=e(v(j), j); e mentions only v, k and invariants"""
        ctx = self.ctx
        if isinstance(e, Ptr): e = e.off
        if isinstance(v0, Ptr): v0 = v0.off
        if isinstance(v0, bool): v0 = z3.BoolVal(v0)
        if not z3.is_expr(v0): v0 = I(v0) if v.sort() == z3.IntSort() else R(v0)
        if not z3.is_expr(e): e = I(e) if v.sort() == z3.IntSort() else R(e)
        if v0.sort() != v.sort(): v0 = R(v0)
        if e.sort() != v.sort(): e = R(e)
        if v.sort() == z3.BoolSort(): return None
        d = z3.simplify(e - v, som=True)
        if occurs(d, [v]):
            # distribute v over ites:  ite(c, v+a, v) - v
            d = z3.simplify(push_ite(e, v), som=True)
        if not occurs(d, [v]):
            if not occurs(d, [k]):
                kk = k if v.sort() == z3.IntSort() else toreal(k)
                return simp(v0 + kk * d), []
            return v0 + self.sum(lambda j: subst(d, [(k, j)]), 0, k, v.sort()), []
        # geometric
        if v.sort() == z3.RealSort():
            q = None
            e1 = simp(subst(e, [(v, z3.RealVal(1))])); e0 = simp(subst(e, [(v, z3.RealVal(0))]))
            if cval(e0) == 0 and not occurs(e1, [k, v]) and ctx.prover.valid(pc, e == e1 * v, ctx.foralls) is True:
                return v0 * powi(e1, k), []
        # running maximum / minimum
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            cands = [x for x in (e.arg(1), e.arg(2)) if not occurs(x, [v])]
            for d in cands:
                for sg in (1, -1):
                    tgt = z3.If(d > v, d, v) if sg == 1 else z3.If(d < v, d, v)
                    if ctx.prover.valid(pc, e == tgt, ctx.foralls) is True:
                        fn = lambda j: sg * subst(R(d), [(k, j)])
                        # absorb the initial value as element -1 if it equals d(-1)
                        dm1 = subst(d, [(k, z3.IntVal(-1))])
                        cvt = (lambda x: x) if v.sort() == z3.RealSort() else ffloor
                        if ctx.prover.valid(pc, v0 == dm1, ctx.foralls) is True:
                            m = self.max(lambda j: fn(j - 1), 0, k + 1)
                            return simp(cvt(sg * m)) if sg == 1 else simp(cvt(-m)), []
                        m = self.max(fn, 0, k)
                        m = m if sg == 1 else -m
                        r0 = R(v0)
                        r = z3.If(k == 0, r0, z3.If(sg * m > sg * r0, m, r0))
                        return cvt(r), []
            # wrap-around counter
            if v.sort() == z3.IntSort():
                ws = set()
                for t in subterms(e):
                    if z3.is_int(t) and not occurs(t, [v, k]) and cval(t) not in (0, 1): ws.add(t)
                for w in ws:
                    if ctx.prover.valid(pc + [0 <= v, v < w], e == z3.If(v + 1 >= w, z3.IntVal(0), v + 1), ctx.foralls) is True \
                       and ctx.prover.valid(pc, z3.And(0 <= v0, v0 < w), ctx.foralls) is True:
                        return imod(v0 + k, w), []
        return None

    def _phase2(self, S0, cond, body, inc, name, k, fr0, bodybase, idx0, base_pc, base_pk, base_fa, modc, moda, closed, last, pairs, defs, normalA, pathsA, kl=()):
        ctx = self.ctx
        def set_base():
            ctx.pc, ctx.pck, ctx.foralls = list(base_pc), list(base_pk), list(base_fa)
        def state_at(kt, arrs):
            vals = {}
            for loc, v in closed.items(): vals[loc] = v if v is UNKNOWN else vsubst(v, [(k, kt)])
            st = self.apply_leafs(S0, vals)
            a = dict(st[1]); a.update(arrs)
            return (st[0], a) + tuple(st[2:])
        set_base()
        facts0 = []
        for d in defs:
            if d[0] == 'init': facts0.append(d[1])
            elif d[0] == 'step':
                f, e = d[1], d[2]
                nx = f.nidx
                def mk(app, f=f, e=e, nx=nx):
                    kt = app.arg(nx)
                    return z3.And(z3.Implies(kt >= 1, app == subst(e, [(k, simp(kt - 1))])))
                base_fa.append(([f.decl.name()], mk))
        for f in facts0: base_pc.append(f); base_pk.append(False)
        set_base()
        # ---------------- trip count
        ctx.idx = idx0 + [k]; ctx.quiet += 1
        try:
            harr = {i: self.havoc_arr(S0[1][i]) for i in moda}
            self.restore(state_at(k, harr))
            ctx.assume(0 <= k)
            frs = ctx.fresh_n; ctx.fresh_n = bodybase
            ck = cond()
            ctx.fresh_n = frs
            if not z3.is_expr(ck): ck = z3.BoolVal(ck)
            ck = simp(ck)
        finally:
            ctx.idx = list(idx0); ctx.quiet -= 1
        set_base()
        K, kfacts = self.trip_count(ck, k, base_pc)
        for f in kfacts: base_pc.append(f); base_pk.append(False)
        for fk in kl:
            fs, qs = fk(K)
            for f in fs: base_pc.append(f); base_pk.append(False)
            base_fa.extend(qs)
        set_base()
        # ---------------- phase C: array writes
        itpc = [0 <= k, k < K, ck]
        ctx.idx = idx0 + [k]; ctx.quiet += 1
        try:
            for f in itpc: ctx.assume(f)
            self.restore(state_at(k, harr))
            frs = ctx.fresh_n; ctx.fresh_n = bodybase
            cond()
            start = self.snap()
            paths = self.explore(lambda: self.run_iter(body, inc))
            ctx.fresh_n = frs
            regions = {}
            norm = [p for p in paths if p.outcome is None]
            for i in moda:
                regions[i] = self.find_region(i, start[1][i], norm, k, K)
        finally:
            ctx.idx = list(idx0); ctx.quiet -= 1
        set_base()
        # ---------------- phase C2: rerun with region-shaped contents, extract the written values
        shape = {}
        Bs = {}
        for i in moda:
            a0 = S0[1][i]
            r = regions[i]
            if r is None or isinstance(r, tuple):
                h = self.havoc_arr(a0)
                if r is not None:     # writes confined to a loop invariant hull
                    h = a0.write(r[1], r[2], h.g, h.gi, kind='havoc')
                shape[i] = (None, lambda kt, h=h: h)
            else:
                B = ctx.freshfn('B', ['Int'], a0.sort)
                Bs[i] = B
                shape[i] = (r, None)
        def arrs_at(kt, content=None):
            out = {}
            for i in moda:
                r, h = shape[i]
                if r is None: out[i] = h(kt)
                else:
                    lo, hi = r['span'](kt)
                    g = (content or {}).get(i)
                    if g is None:
                        B = Bs[i]; g = (lambda o, B=B: B(o), None)
                    node = S0[1][i].write(lo, hi, g[0], g[1], kind='write')
                    if r.get('gaps') is not None:
                        node = self.gapped(S0[1][i], node, r, g, kt)
                    out[i] = node
            return out
        ctx.idx = idx0 + [k]; ctx.quiet += 1
        frA = ctx.fresh_n
        vals = {}
        try:
            for f in itpc: ctx.assume(f)
            self.restore(state_at(k, arrs_at(k)))
            frs = ctx.fresh_n; ctx.fresh_n = bodybase
            cond()
            start = self.snap()
            n0 = len(ctx.pc)
            paths = self.explore(lambda: self.run_iter(body, inc))
            frend = ctx.fresh_n; ctx.fresh_n = frs
            norm = [p for p in paths if p.outcome is None]
            abn = [p for p in paths if p.outcome is not None]
            for i in Bs:
                r = regions[i]
                o = ctx.fresh('o', 'Int') if False else z3.Const('o!%d_%d' % (fr0, i), z3.IntSort())
                g = gi = None
                for p in reversed(norm):
                    npc, npk, nfa = len(ctx.pc), len(ctx.pck), len(ctx.foralls)
                    for f in p.facts: ctx.assume(f)
                    ctx.foralls.extend(p.foralls)
                    ctx.assume(z3.And(r['lo'] <= o, o < r['hi']))
                    try:
                        end = p.state[1][i]
                        x = end.sel(o, ctx); xi = end.sel(o, ctx, ini=True)
                    finally:
                        del ctx.pc[npc:]; del ctx.pck[npk:]; del ctx.foralls[nfa:]
                    gd = conj(p.decisions())
                    g = x if g is None else ite(gd, x, g)
                    gi = xi if gi is None else ite(gd, xi, gi)
                vals[i] = (o, g, gi)
        finally:
            ctx.idx = list(idx0); ctx.quiet -= 1
        set_base()
        # facts about symbols created in the body, for all iterations
        lifted = []
        for p in paths:
            for guards, f in p.assumed():
                lifted += self.lift_fact(k, K, guards + [ck], f)
            for decls, fn in p.foralls:
                lifted.append(self.lift_forall(k, K, p.decisions() + [ck], decls, fn))
        lifted = [l for l in lifted if l is not None]
        # contents
        content = {}
        for i, (o, g, gi) in vals.items():
            r = regions[i]; B = Bs[i]
            own = r['owner']
            recursive = B.decl.name() in uf_apps(g)
            def val(off, term, o=o, own=own):
                return simp(subst(term, [(k, own(off))])) if False else z3.simplify(z3.substitute(term, (k, own(off)), (o, I(off))))
            gic = None if z3.is_true(gi) else (lambda off, gi=gi, val=val: val(off, gi))
            if recursive:
                content[i] = ((lambda off, B=B: B(off)), gic)
                nx = B.nidx
                def mk(app, g=g, val=val, r=r, nx=nx):
                    off = app.arg(nx)
                    lo, hi = r['span'](K)
                    return z3.Implies(z3.And(lo <= off, off < hi), app == val(off, g))
                lifted.append(([B.decl.name()], mk))
            else:
                content[i] = ((lambda off, g=g, val=val: val(off, g)), gic)
            lifted += r.get('facts', [])
        base_fa.extend(lifted)
        # ---------------- abrupt exits
        noabn = None
        if abn:
            B_k = disj([conj(p.decisions()) for p in abn])
            noabn = B_k
            occ = self.k_triggers(B_k, k)
            def mkn(bound):
                out = []
                for dn, pos, c0 in occ:
                    def f(app, pos=pos, c0=c0, dn=dn):
                        kt = simp(app.arg(pos) - c0)
                        return z3.Implies(z3.And(0 <= kt, kt < bound), z3.Not(subst(B_k, [(k, kt)])))
                    out.append(([dn], f))
                return out
            set_base()
            ex = ctx.fresh('early', 'Bool')
            if ctx.decide(ex):
                kb = ctx.fresh('kb', 'Int')
                ctx.assume(z3.And(0 <= kb, kb < K)); ctx.assume(subst(ck, [(k, kb)]))
                ctx.assume(subst(B_k, [(k, kb)]))
                ctx.foralls.extend(base_fa[len(ctx.foralls):] if False else [])
                ctx.foralls.extend(mkn(kb))
                ctx.assume(z3.Implies(kb > 0, z3.Not(subst(B_k, [(k, z3.IntVal(0))])))) 
                if not ctx.feasible(): raise Infeasible()
                self.restore(state_at(kb, arrs_at(kb, content)))
                ctx.fresh_n = max(ctx.fresh_n, frend)
                r = self.run_iter(body, inc)
                if r is None: raise Infeasible()
                if isinstance(r, CBreak): return
                raise r
            keep_pc, keep_pk, keep_fa = list(ctx.pc), list(ctx.pck), list(ctx.foralls)
            base_fa = keep_fa + mkn(K); base_pc, base_pk = keep_pc, keep_pk
            base_pc.append(z3.Implies(K > 0, z3.Not(subst(B_k, [(k, z3.IntVal(0))])))); base_pk.append(False)
        # ---------------- phase D: recorded checking run at a generic iteration
        ctx.pc, ctx.pck, ctx.foralls = list(base_pc), list(base_pk), list(base_fa)
        if not ctx.quiet:
            ctx.idx = idx0 + [k]
            try:
                for f in itpc: ctx.assume(f)
                self.restore(state_at(k, arrs_at(k, content)))
                frs = ctx.fresh_n; ctx.fresh_n = bodybase
                if ctx.feasible():
                    cond()
                    pp = self.explore(lambda: self.run_iter(body, inc))
                    for p in pp:
                        if p.outcome is not None: continue
                        self.check_step(p, closed, k, name)
                ctx.fresh_n = frs
            finally:
                ctx.idx = list(idx0)
        # ---------------- exit state
        ctx.fresh_n = max(ctx.fresh_n, frend)
        ctx.pc, ctx.pck, ctx.foralls = list(base_pc), list(base_pk), list(base_fa)
        fin = {}
        for loc, v in closed.items():
            if loc in last:
                lv = last[loc]; lv = vsubst(lv, pairs)
                if ctx.quick(K > 0): fin[loc] = vsubst(lv, [(k, simp(K - 1))])
                else:
                    v0 = self.getleaf(S0[0][loc[0]], loc[1])
                    fin[loc] = UNKNOWN if v is UNKNOWN else vmerge(K == 0, v0, vsubst(lv, [(k, simp(K - 1))]))
            else: fin[loc] = vsubst(v, [(k, K)])
        st = self.apply_leafs(S0, {l: (v if not z3.is_expr(v) else simp(v)) for l, v in fin.items()})
        a = dict(st[1]); a.update(arrs_at(K, content))
        self.restore((st[0], a, ctx_nid(self, st)) + tuple(st[3:]))

    def check_step(self, p, closed, k, name):
        """obligation: the inferred closed forms are inductive (on this path)"""
        ctx = self.ctx
        n, nf = len(ctx.pc), len(ctx.foralls)
        for f, kd in zip(p.facts, p.kinds): ctx.assume(f, kd)
        ctx.foralls.extend(p.foralls)
        try:
            for loc, v in closed.items():
                if v is UNKNOWN or loc[0] not in p.state[0]: continue
                got = self.getleaf(p.state[0][loc[0]], loc[1])
                want = vsubst(v, [(k, k + 1)])
                if isinstance(got, Ptr) and isinstance(want, Ptr):
                    goal = got.off == want.off if got.obj == want.obj else z3.BoolVal(False)
                elif z3.is_expr(got) and z3.is_expr(want): goal = R(got) == R(want) if got.sort() != want.sort() else got == want
                elif same(got, want): goal = z3.BoolVal(True)
                elif hasattr(got, 'loop_step'): goal = got.loop_step(want)
                elif z3.is_expr(want) and isinstance(got, (int, float)): goal = want == (I(got) if z3.is_int(want) else R(got))
                else: goal = z3.BoolVal(False)
                ctx.oblige('%s: loop invariant of variable #%s%s is preserved' % (name, loc[0], ''.join('.%s' % x for x in loc[1])), goal, kind='invariant')
        finally:
            del ctx.pc[n:]; del ctx.pck[n:]; del ctx.foralls[nf:]

    def trip_count(self, ck, k, pc):
        """K such that cond(j) for j<K and not cond(K)"""
        ctx = self.ctx
        c = ck
        neg = False
        if z3.is_not(c):
            neg = True; c = c.arg(0)
        op = c.decl().kind() if z3.is_app(c) else None
        if op in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ) and z3.is_int(c.arg(0)):
            a, b = c.arg(0), c.arg(1)
            if op in (z3.Z3_OP_GT, z3.Z3_OP_GE): a, b = b, a; op = {z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_GE: z3.Z3_OP_LE}[op]
            if neg and op != z3.Z3_OP_EQ:
                a, b = b, a; op = {z3.Z3_OP_LT: z3.Z3_OP_LE, z3.Z3_OP_LE: z3.Z3_OP_LT}[op]
            D = b - a + (1 if op == z3.Z3_OP_LE else 0)       # continue while D > 0
            l = lin_in(D, k)
            if l is not None:
                D0, s = l
                if op == z3.Z3_OP_EQ and neg and abs(s) == 1:
                    D0 = simp(-s * D0)
                    if ctx.prover.valid(pc, D0 >= 0, ctx.foralls) is True: return D0, []
                elif op != z3.Z3_OP_EQ and s < 0:
                    K = D0 if s == -1 else (D0 + (-s - 1)) / z3.IntVal(-s)
                    K = simp(K)
                    if ctx.prover.valid(pc, K >= 0, ctx.foralls, timeout=1500, strong=False) is True: return K, []
                    return simp(z3.If(K >= 0, K, z3.IntVal(0))), []
            # D(k) = b - (a0 + k*step): symbolic positive step
            Dk = simp(subst(D, [(k, k + 1)]) - D)
            Dk = z3.simplify(-Dk, som=True)
            if not occurs(Dk, [k]) and op != z3.Z3_OP_EQ and ctx.prover.valid(pc, Dk > 0, ctx.foralls) is True:
                D0 = simp(subst(D, [(k, z3.IntVal(0))]))
                K = z3.If(D0 > 0, idiv(D0 + Dk - 1, Dk), z3.IntVal(0))
                return K, []
        K = ctx.fresh('K', 'Int')
        facts = [K >= 0, z3.Not(subst(ck, [(k, K)])), z3.Implies(K > 0, z3.And(subst(ck, [(k, z3.IntVal(0))]), subst(ck, [(k, K - 1)])))]
        self.ctx.assumptions.append('termination of a loop with condition %s' % str(ck)[:80])
        return K, facts

    # ------------------------------------------------------------ array regions
    def find_region(self, i, start, norm, k, K):
        ctx = self.ctx
        per = []
        for p in norm:
            ws = p.state[1][i].writes_since(start)
            if ws is None: return None
            if not ws: per.append((p, None)); continue
            npc, nfa = len(ctx.pc), len(ctx.foralls)
            for f in p.facts: ctx.assume(f)
            ctx.foralls.extend(p.foralls)
            try:
                lo, hi = ws[0].lo, ws[0].hi
                for w in ws[1:]:
                    # extend the hull
                    if ctx.entails(w.lo == hi): hi = w.hi
                    elif ctx.entails(w.hi == lo): lo = w.lo
                    elif ctx.entails(z3.And(lo <= w.lo, w.hi <= hi)): pass
                    elif ctx.entails(z3.And(w.lo <= lo, hi <= w.hi)): lo, hi = w.lo, w.hi
                    elif ctx.entails(z3.And(lo <= w.lo, w.lo <= hi, hi <= w.hi)): hi = w.hi
                    elif ctx.entails(z3.And(w.lo <= lo, lo <= w.hi, w.hi <= hi)): lo = w.lo
                    elif ctx.entails(z3.And(lo <= w.lo, lo <= hi, w.lo <= w.hi)): hi = ite(w.hi >= hi, w.hi, hi)
                    else: return None
                hav = any(w.kind == 'havoc' for w in ws)
                per.append((p, (simp(lo), simp(hi), hav)))
            finally:
                del ctx.pc[npc:]; del ctx.pck[npc:]; del ctx.foralls[nfa:]
        wr = [(p, r) for p, r in per if r is not None]
        if not wr: return None
        anyhav = any(r[2] for p, r in wr)
        lo, hi = wr[-1][1][0], wr[-1][1][1]
        for p, r in reversed(wr[:-1]):
            g = conj(p.decisions())
            lo = ite(g, r[0], lo); hi = ite(g, r[1], hi)
        for p, r in per:
            if r is None:
                hi = ite(conj(p.decisions()), lo, hi)
        lo, hi = simp(lo), simp(hi)
        w = z3.simplify(hi - lo, som=True)
        kp = [(k, k + 1)]
        nxt = subst(lo, kp)
        pc1 = [0 <= k, k + 1 < K]
        def ent(f):
            n = len(ctx.pc)
            for x in pc1: ctx.assume(x)
            try: return ctx.entails(f)
            finally: del ctx.pc[n:]; del ctx.pck[n:]
        if not occurs(w, [k]):
            lin = z3.simplify(nxt - lo, som=True)
            if not occurs(lin, [k]):
                a = simp(subst(lo, [(k, z3.IntVal(0))]))
                st = lin
                if w.eq(st) or ctx.entails(w == st):
                    if cval(w) == 1: own = lambda off: simp(I(off) - a)
                    else: own = lambda off: idiv(I(off) - a, w)
                    return {'kind': 'aff', 'lo': lo, 'hi': hi, 'span': lambda kt: (a, simp(a + kt * st)), 'owner': own}
                ns = z3.simplify(-st, som=True)
                if w.eq(ns) or ctx.entails(w == ns):
                    top = simp(a + w)
                    if cval(w) == 1: own = lambda off: simp(top - 1 - I(off))
                    else: own = lambda off: idiv(top - 1 - I(off), w)
                    return {'kind': 'affdown', 'lo': lo, 'hi': hi, 'span': lambda kt: (simp(top - kt * w), top), 'owner': own}
                if ctx.entails(z3.And(st > w, w > 0)):
                    own = lambda off: idiv(I(off) - a, st)
                    return {'kind': 'gap', 'lo': lo, 'hi': hi, 'span': lambda kt: (a, simp(a + kt * st)), 'owner': own, 'gaps': (a, st, w)}
        if not anyhav or True:
            if ent(z3.And(nxt == hi, lo <= hi)) and ctx.entails(lo <= hi):
                sv = ctx.idx; ctx.idx = sv[:-1]       # a function of the outer indices only
                f = ctx.freshfn('loc', ['Int'], 'Int')
                ctx.idx = sv
                nx = f.nidx
                a = simp(subst(lo, [(k, z3.IntVal(0))]))
                def span(kt): return (a, z3.If(kt == 0, a, simp(subst(hi, [(k, simp(kt - 1))]))) if not self._lo_ok(lo, hi, k) else simp(subst(lo, [(k, kt)])))
                def fact(app):
                    off = app.arg(nx)
                    s = span(K)
                    return z3.Implies(z3.And(a <= off, off < s[1]), z3.And(0 <= app, app < K, subst(lo, [(k, app)]) <= off, off < subst(hi, [(k, app)])))
                return {'kind': 'var', 'lo': lo, 'hi': hi, 'span': span, 'owner': lambda off: f(I(off)), 'facts': [([f.decl.name()], fact)]}
        # scratch: confined to an invariant hull?
        if not occurs(lo, [k]) and not occurs(hi, [k]): return ('hav', lo, hi)
        return None

    def _lo_ok(self, lo, hi, k):
        return True

    def gapped(self, base, node, r, g, kt):
        a, st, w = r['gaps']
        def inn(off):
            return z3.And(I(off) - a - st * idiv(I(off) - a, st) < w)
        gg = lambda off: ite(inn(off), g[0](off), base.sel(off))
        gi = lambda off: ite(inn(off), g[1](off) if g[1] is not None else z3.BoolVal(True), base.sel(off, ini=True))
        return base.write(node.lo, node.hi, gg, gi, kind='write')

    # ------------------------------------------------------------ lifting facts over iterations
    def lift_fact(self, k, K, guards, f):
        out = []
        for nm, d in uf_apps(f).items():
            for app in d.values():
                pos = [j for j in range(app.num_args()) if app.arg(j).eq(k)]
                if pos and '!' in nm:
                    def mk(a, pos=pos[0]):
                        kt = a.arg(pos)
                        return z3.Implies(z3.And(0 <= kt, kt < K, *[subst(g, [(k, kt)]) for g in guards]), subst(f, [(k, kt)]))
                    out.append(([nm], mk))
                    break
        return out

    def lift_forall(self, k, K, guards, decls, fn):
        """a quantified fact registered inside the body (at iteration k) as a fact for all iterations"""
        try:
            dummies = None
            comp = None
            tr = getattr(fn, 'companion', None)
            def mk(*apps):
                f = fn(*apps[:len(decls)])
                if f is None: return None
                kt = None
                for a in apps:
                    m = fnpos(a, k)
                    if m is not None: kt = m; break
                if kt is None:
                    if not occurs(f, [k]): return f
                    return None
                return z3.Implies(z3.And(0 <= kt, kt < K, *[subst(g, [(k, kt)]) for g in guards]), subst(f, [(k, kt)]))
            def fnpos(a, k):
                j = IDXPOS.get(a.decl().name(), {}).get(k.get_id())
                return a.arg(j) if j is not None else None
            mk.companion = tr
            # add a companion trigger when no trigger depends on k
            dl = list(decls)
            if not any(k.get_id() in IDXPOS.get(d, {}) for d in dl):
                c = getattr(fn, 'kdecls', None)
                if c is None: c = [d for d in IDXPOS if k.get_id() in IDXPOS[d]]
                used = fn_decls(fn, decls)
                c = [d for d in c if d in used] if used is not None else c
                if not c: return (dl, fn)
                dl = dl + [c[0]]
            return (dl, mk)
        except Unsupported:
            return None

    def k_triggers(self, B, k):
        out = []
        for nm, d in uf_apps(B).items():
            for app in d.values():
                for j in range(app.num_args()):
                    a = app.arg(j)
                    if z3.is_int(a):
                        l = lin_in(a, k)
                        if l is not None and l[1] == 1 and not occurs(l[0], [k]):
                            out.append((nm, j, l[0])); break
        return out

IDXPOS = {}     # decl name -> {id of loop index const: argument position}

def fn_decls(fn, decls):
    """declarations mentioned by a registered quantified fact (evaluated on dummy applications)"""
    d = getattr(fn, 'sample', None)
    if d is None: return None
    return set(uf_apps(d).keys())

def ctx_nid(m, st):
    return max(m.nid, st[2])

def subterms(e):
    seen = set(); st = [e]; out = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
        if z3.is_app(x): st.extend(x.children())
    return out

def push_ite(e, v):
    """e - v with the subtraction pushed through ites (so that v cancels)"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), push_ite(e.arg(1), v), push_ite(e.arg(2), v))
    return z3.simplify(e - v, som=True)
