"""Contracts (abstract effects) and their verification against function bodies."""
import z3, time, traceback
from dv.core import *
from dv.machine import *

class Contract:
    """A contract is an abstract effect on the heap.  The same object is applied at call sites (its
    preconditions become obligations of the caller) and verified against the function's body."""
    key = None
    ns = 'riptide'
    def setup(self, m):
        """symbolic arguments for the verification of the body"""
        raise NotImplementedError
    def pre(self, m, a): return []
    def raises(self, m, a): return None
    def effect(self, m, a): return None
    def measure(self, m, a): return None
    result_post = None
    def apply(self, m, vals, this=None):
        ctx = m.ctx
        for nm, f in self.pre(m, vals): oblige_pre(m, '%s: precondition of %s: %s' % (m.fname(), self.key, nm), f)
        r = self.raises(m, vals)
        if r is not None and ctx.decide(r): raise CThrow('exception')
        ms = self.measure(m, vals)
        if ms is not None and m.verifying == self.key and getattr(m, 'top_measure', None) is not None:
            ctx.oblige('%s: recursion of %s terminates' % (m.fname(), self.key), z3.And(ms >= 0, ms < m.top_measure), 'termination')
        return self.effect(m, vals)

class ForAll:
    """forall lo <= i < hi: pred(a[i], i)"""
    def __init__(self, arr, lo, hi, pred): self.arr, self.lo, self.hi, self.pred = arr, lo, hi, pred

def oblige_pre(m, name, f, kind='pre'):
    ctx = m.ctx
    if not isinstance(f, ForAll): return ctx.oblige(name, f, kind)
    u = ctx.fresh('u'); n = len(ctx.pc)
    ctx.assume(z3.And(f.lo <= u, u < f.hi))
    try: return ctx.oblige(name, f.pred(f.arr.sel(u, ctx), u), kind)
    finally: del ctx.pc[n:]; del ctx.pck[n:]

def assume_pre(m, f):
    if isinstance(f, ForAll): m.forall_fact(f.arr, f.lo, f.hi, f.pred)
    else: m.ctx.assume(f)

def compare_value(m, name, got, want):
    ctx = m.ctx
    if isinstance(want, StructVal) and isinstance(got, StructVal) and want.f.keys() <= got.f.keys():
        for k in want.f: compare_value(m, name + '.' + k, got.f[k], want.f[k])
        return
    if isinstance(want, tuple) and isinstance(got, tuple) and len(want) == len(got):
        for i, (x, y) in enumerate(zip(got, want)): compare_value(m, '%s[%d]' % (name, i), x, y)
        return
    if isinstance(want, Ptr) and isinstance(got, Ptr):
        ctx.oblige(name, got.off == want.off if got.obj == want.obj else z3.BoolVal(False), 'post'); return
    if want is UNKNOWN: return
    if z3.is_expr(want) and z3.is_expr(got):
        if z3.is_bool(want) != z3.is_bool(got): ctx.oblige(name, z3.BoolVal(False), 'post'); return
        if want.sort() != got.sort(): want, got = R(want), R(got)
        ctx.oblige(name, got == want, 'post'); return
    ctx.oblige(name, z3.BoolVal(bool(same(got, want))), 'post')

def compare_array(m, label, end, exp, start, values=True):
    """obligations: end content equals expected content (expected = start + writes)"""
    ctx = m.ctx
    ws = exp.writes_since(start)
    o = ctx.fresh('off', 'Int')
    n0 = len(ctx.pc)
    ctx.assume(z3.And(0 <= o, o < exp.n))
    try:
        outside = []
        for w in reversed(ws or []):
            n1 = len(ctx.pc)
            ctx.assume(w.inside(o))
            for f in outside: ctx.assume(f)
            if ctx.feasible():
                if w.kind != 'havoc':
                    if values:
                        e = end.sel(o, ctx); x = w.g(o)
                        ctx.oblige('%s: contents' % label, e == x, 'post')
                    if not m.fully_init(end): ctx.oblige('%s: contents are initialised' % label, end.sel(o, ctx, ini=True), 'post')
            del ctx.pc[n1:]; del ctx.pck[n1:]
            outside.append(z3.Not(w.inside(o)))
        if end is not start:
            n1 = len(ctx.pc)
            for f in outside: ctx.assume(f)
            if ctx.feasible():
                ctx.oblige('%s: unchanged elsewhere' % label, end.sel(o, ctx) == start.sel(o, ctx) if values else z3.BoolVal(True), 'frame')
            del ctx.pc[n1:]; del ctx.pck[n1:]
    finally:
        del ctx.pc[n0:]; del ctx.pck[n0:]

def compare_states(m, label, s0, end, exp, skip=()):
    for i in s0[1]:
        if i in skip: continue
        a, b = end[1][i], exp[1][i]
        if a is b: continue
        compare_array(m, '%s: array %s' % (label, s0[1][i].name), a, b, s0[1][i], values=not getattr(m, 'no_values', False))

def verify(m, c, decl, label=None, compare=True):
    """verify the body of decl against contract c; obligations go to m.ctx"""
    ctx = m.ctx
    label = label or c.key
    ctx.func = label
    m.verifying = c.key if m.ns_of(decl) == 'riptide' else 'b:' + c.key
    count = [0]
    ctx.pc.clear(); ctx.pck.clear(); ctx.foralls = []; ctx.idx = []
    m.cells.clear(); m.arrs.clear(); m.envs = []; m.stack = []; m.callkeys = ()
    def run():
        m.verifying_top = True
        m.envs = []; m.stack = []; m.callkeys = ()
        vals = c.setup(m)
        for nm, f in c.pre(m, vals): assume_pre(m, f)
        for f in getattr(c, 'assume', lambda m, a: [])(m, vals): ctx.assume(f)
        m.top_measure = c.measure(m, vals)
        s0 = m.snap()
        rs = c.raises(m, vals)
        try:
            m.envs = [([{}], None)]
            m.verifying_top = False
            r = m.run_body(decl, list(vals), None, m.verifying)
        except CThrow as e:
            if rs is None:
                ctx.oblige('%s: no exception is thrown (%s)' % (label, e.etype), z3.BoolVal(False), 'exceptional')
            else:
                ctx.oblige('%s: exception only when specified (%s)' % (label, e.etype), rs, 'exceptional')
            count[0] += 1
            return 'throw'
        end = m.snap()
        if rs is not None:
            ctx.oblige('%s: invalid arguments are rejected' % label, z3.Not(rs), 'exceptional')
        if compare and getattr(c, 'ns', '') == 'riptide__b':
            c.result_post(m, vals, r, s0, end)
        elif compare:
            m.restore(s0)
            q = ctx.quiet; 
            w = c.effect(m, vals)
            exp = m.snap()
            compare_states(m, label, s0, end, exp)
            m.end_state = end
            if c.result_post is not None: c.result_post(m, vals, r, s0, end)
            else: compare_value(m, '%s: result' % label, r, w)
        elif c.result_post is not None:
            m.restore(end)
            c.result_post(m, vals, r, s0, end)
        count[0] += 1
        return 'ok'
    outs = m.explore(run)
    ctx.oblige('%s: specification is satisfiable (some path exists)' % label, z3.BoolVal(count[0] > 0), 'cover')
    return outs
