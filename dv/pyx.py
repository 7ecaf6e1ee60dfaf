"""Symbolic executor for the Python functions of /repo (parsed on every run with the ast module)."""
import ast, os, z3, re
from dv.core import *
from dv.machine import *
from dv.pyval import *

class Env:
    __slots__ = ('vars', 'parent', 'mod', 'func', 'glob')
    def __init__(self, mod, parent=None, func=None): self.vars, self.parent, self.mod, self.func, self.glob = {}, parent, mod, func, set()

class NeedBranch(Exception): pass
class Yielded(Exception): pass

_MODS = {}
class Mod:
    def __init__(self, repo, name, path):
        self.name = name; self.path = path
        self.tree = ast.parse(open(path).read())
        self.defs = {}; self.imports = {}; self.assigns = {}
        for st in self.tree.body: self.add(st)
    def add(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)): self.defs[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names: self.imports[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ''
            if st.level:
                pk = self.name.split('.')
                if not self.path.endswith('__init__.py'): pk = pk[:-1]
                pk = pk[:len(pk) - (st.level - 1)]
                base = '.'.join(pk + ([st.module] if st.module else []))
            for a in st.names: self.imports[a.asname or a.name] = (base, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name): self.assigns[t.id] = st.value
        elif isinstance(st, (ast.Try, ast.If)):
            for s in st.body: self.add(s)

def load(repo, name):
    key = (repo, name)
    if key in _MODS: return _MODS[key]
    p = os.path.join(repo, *name.split('.'))
    if os.path.isdir(p): f = os.path.join(p, '__init__.py')
    else: f = p + '.py'
    m = Mod(repo, name, f) if os.path.exists(f) else None
    _MODS[key] = m
    return m

BUILTINS = {'len', 'abs', 'min', 'max', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'range', 'enumerate', 'zip', 'sorted', 'isinstance', 'super', 'any', 'all', 'sum',
            'filter', 'map', 'type', 'getattr', 'hasattr', 'round', 'print', 'object', 'set', 'iter', 'reversed', 'ValueError', 'KeyError', 'TypeError', 'IndexError', 'Exception', 'RuntimeError', 'UserWarning', 'RuntimeWarning', 'DeprecationWarning', 'Warning', 'repr', 'open', 'next', 'ZeroDivisionError', 'AttributeError', 'NotImplementedError', 'pow', 'divmod', 'chr', 'ord', 'bytes', 'staticmethod', 'classmethod', 'property', 'EOFError', 'OverflowError', 'slice', 'callable', 'id', 'frozenset', 'complex'}
EXC_PARENT = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'RuntimeError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'AttributeError': 'Exception', 'struct.error': 'Exception', 'UnicodeDecodeError': 'ValueError', 'NotImplementedError': 'RuntimeError', 'EOFError': 'Exception', 'exception': 'Exception', 'Exception': 'BaseException', 'OSError': 'Exception'}

class InvSpec:
    """loop invariant given with the contract.  match(E, node) -> bool; inv(E, k) -> [(name, formula)]; havoc(E) may supply shapes"""
    def __init__(self, match, inv, variant=None, shapes=None, name='loop', facts=None):
        self.match, self.inv, self.variant, self.shapes, self.name, self.facts = match, inv, variant, shapes or {}, name, facts

class Py(Machine):
    def __init__(self, ctx, repo):
        super().__init__(ctx)
        self.repo = repo
        self.env = None; self.binds = None; self.name_reals = ()
        self.shared = set()         # identities of the lists and dictionaries that outlive the call
        self.contracts = {}         # qualified name -> fn(E, args, kwargs) -> value
        self.used_contracts = set(); self.trusted = set()
        self.invs = []
        self.npf = {}
        self.attrs = {}             # (cls, attr) -> cell of an AMap (mutable attributes of opaque objects)
        self.opq = {}               # cls -> {attr: sort name | 'cls:Name' | fn(E, Opq)}
        self.opq_methods = {}
        self.nobranch = 0
        self.calldepth = 0
        self.globs = {}; self.globnid = {}
        self.strs = {}
        from dv import pylib
        self.lib = pylib
    def fname(self): return self.ctx.func

    # ------------------------------------------------------------ names
    def modval(self, mod, name):
        key = (mod.name, name)
        if key in self.globs: return self.globs[key]
        n0 = self.nid
        v = self._modval(mod, name)
        self.globs[key] = self.share(v)
        if self.nid > n0: self.globnid[key] = self.nid       # holds cells (closures): valid only while these exist
        return v
    # name bindings are part of the state: a chain (previous, depth, environment, name, old, new)
    def setvar(self, env, name, c):
        b = self.binds
        self.binds = (b, b[1] + 1 if b else 1, env, name, env.vars.get(name), c)
        if c is None: env.vars.pop(name, None)
        else: env.vars[name] = c
    def rebind(self, t):
        def undo(b):
            if b[4] is None: b[2].vars.pop(b[3], None)
            else: b[2].vars[b[3]] = b[4]
            return b[0]
        s = self.binds; redo = []
        while s is not t:
            ds, dt = (s[1] if s else 0), (t[1] if t else 0)
            if dt >= ds: redo.append(t); t = t[0]
            if ds >= dt and ds: s = undo(s)
        for b in reversed(redo):
            if b[5] is None: b[2].vars.pop(b[3], None)
            else: b[2].vars[b[3]] = b[5]
    def snap(self): return super().snap() + (self.binds,)
    def restore(self, s):
        super().restore(s)
        self.rebind(s[3]); self.binds = s[3]
        for k, n in list(self.globnid.items()):
            if n > self.nid: del self.globnid[k]; self.globs.pop(k, None)
    def _modval(self, mod, name):
        if name in mod.defs:
            n = mod.defs[name]
            if isinstance(n, ast.ClassDef): return PyClass(mod, n)
            return self.mkfunc(mod, n, None)
        if name in mod.imports:
            base, nm = mod.imports[name]
            return self.imported(base, nm)
        if name in mod.assigns:
            e = Env(mod); old = self.env; self.env = e
            try: return self.ev(mod.assigns[name])
            finally: self.env = old
        if name == '__name__': return mod.name
        sub = load(self.repo, mod.name + '.' + name) if mod.path.endswith('__init__.py') else None
        if sub is not None: return ModVal(sub.name)
        return None
    def imported(self, base, nm):
        if base.split('.')[0] == 'riptide':
            if nm is None:
                return Lib(base) if base == 'riptide.libcpp' else ModVal(base)
            if base == 'riptide.libcpp' or (base == 'riptide' and nm == 'libcpp'): return Lib('riptide.libcpp' + ('' if nm == 'libcpp' else '.' + nm))
            m = load(self.repo, base)
            if m is not None:
                v = self.modval(m, nm)
                if v is not None: return v
            m2 = load(self.repo, base + '.' + nm)
            if m2 is not None: return ModVal(m2.name)
            if nm.startswith('__version') : return '0.0'
            raise Unsupported('import of %s.%s' % (base, nm))
        return Lib(base if nm is None else base + '.' + nm)
    def mkfunc(self, mod, n, env, cls=None, qual=None):
        qual = qual or (mod.name + '.' + (cls.name + '.' if cls else '') + n.name)
        f = PyFunc(mod, n, env, None, cls, qual)
        for d in reversed(n.decorator_list):
            dn = ast.unparse(d)
            if dn in ('property', 'classmethod', 'staticmethod'): continue
            old = self.env; self.env = env or Env(mod)
            try: dv = self.ev(d)
            finally: self.env = old
            f0 = f
            f = self.call(dv, [f], {})
            if isinstance(f, PyFunc): f = PyFunc(f.mod, f.node, f.env, None, cls, f.qual)
        return f
    def lookup(self, name):
        e = self.env
        while e is not None:
            if name in e.vars:
                c = e.vars[name]
                if isinstance(c, tuple):        # target of a loop over a sequence of unknown length
                    if not self.decide(c[0] > 0): raise CThrow('UnboundLocalError', name)
                    return self.thaw(c[1](simp(c[0] - 1)))
                v = self.cells[c]
                if v is UNKNOWN: raise Unsupported('value of %s is not known' % name)
                return v
            e = e.parent
        v = self.modval(self.env.mod, name)
        if v is not None or name in self.env.mod.assigns: return v
        if name in BUILTINS: return Lib(name)
        if name in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[name]
        raise Unsupported('value of %s' % name)
    def named(self, x, inverse=False):
        """a constant that stands for the real x, an expression over the parameters listed in name_reals; its definition is used only by obligations that need it"""
        x = simp(x)
        if not inverse:
            ok = False; st = [x]; seen = set()
            while st:
                y = st.pop()
                if y.get_id() in seen: continue
                seen.add(y.get_id())
                if z3.is_var(y) or (y.num_args() == 0 and not z3.is_rational_value(y) and not z3.is_int_value(y) and not any(y.eq(c) for c in self.name_reals) and not self.isnamed(y)): return x
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args(): return x
                if z3.is_div(y) or (z3.is_mul(y) and sum(not z3.is_rational_value(c) for c in y.children()) > 1): ok = True
                st += y.children()
            if not ok: return x
        tab = self.ctx.__dict__.setdefault('named', {})
        k = (x.get_id(), inverse)
        if k not in tab:
            c = z3.Real('nm!%d' % len(tab)); tab[k] = (x, c)
            self.ctx.defs.append(z3.Implies(x != 0, c * x == 1) if inverse else c == x)
        return tab[k][1]
    def isnamed(self, x): return z3.is_const(x) and x.decl().name().startswith('nm!')
    def bindname(self, name, v):
        if self.name_reals and z3.is_expr(v) and z3.is_real(v): v = self.named(v)
        e = self.env
        if name in e.glob:
            while e is not None and (e is self.env or name not in e.vars): e = e.parent
            if e is None: raise Unsupported('nonlocal name')
        if isinstance(e.vars.get(name), int): self.cells[e.vars[name]] = v
        else: self.setvar(e, name, self.new(v))

    # ------------------------------------------------------------ basic operations
    def num(self, v):
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, (float, Fraction)): return R(v)
        if z3.is_expr(v):
            if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        if isinstance(v, Opq) and self.lib.fraction_value(self, v) is not None: return self.lib.fraction_value(self, v)
        raise Unsupported('not a number: %r' % (v,))
    def isnum(self, v): return isinstance(v, (bool, int, float, Fraction)) or z3.is_expr(v)
    def strcode(self, s):
        if s not in self.strs:
            import zlib
            self.strs[s] = z3.IntVal(-(10**6) - zlib.crc32(s.encode('utf8', 'replace')))
        return self.strs[s]
    def truth(self, v):
        """truth value as a z3 Bool (no branching)"""
        if v is None: return z3.BoolVal(False)
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, (str, bytes, tuple)): return z3.BoolVal(len(v) > 0)
        if z3.is_expr(v): return v if z3.is_bool(v) else v != 0
        if isinstance(v, LST): return v.n > 0
        if isinstance(v, DCT) and v.rest is None: return z3.BoolVal(len(v.ent) > 0)
        if isinstance(v, Seq): return v.n > 0
        if isinstance(v, Opq):
            if v.cls in self.opq and '__truth__' in self.opq[v.cls]: return self.opq[v.cls]['__truth__'](self, v)
            if v.cls == 'str': return v.id != self.strcode('')
            return z3.BoolVal(True)
        if isinstance(v, ND):
            n = z3.IntVal(1)
            for s in v.shape: n = n * s
            raise Unsupported('truth of an array')
        if isinstance(v, ORef):
            c = self.cells[v.id]
            if '__list__' in c.f: return c.f['__list__'].n > 0
            if '__dict__' in c.f: return self.truth(c.f['__dict__'])
            return z3.BoolVal(True)
        if isinstance(v, (Lib, PyFunc, PyClass, LibObj, Rec)): return z3.BoolVal(True)
        raise Unsupported('truth of %r' % (v,))
    def decide(self, c):
        c = simp(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        v = cval(c)
        if v is not None: return bool(v)
        if self.nobranch:
            if self.ctx.quick(c): return True
            if self.ctx.quick(z3.Not(c)): return False
            raise NeedBranch()
        return self.ctx.decide(c)
    def istrue(self, v): return self.decide(self.truth(v))
    def pure(self, fn):
        """fn() without branching, or None"""
        s = self.snap(); n = len(self.ctx.pc); fr = self.ctx.fresh_n
        self.nobranch += 1
        try: return (fn(),)
        except (NeedBranch, CThrow):
            self.restore(s); del self.ctx.pc[n:]; del self.ctx.pck[n:]; self.ctx.fresh_n = fr
            return None
        finally: self.nobranch -= 1

    # ------------------------------------------------------------ identity-tracked lists and dicts
    def share(self, v):
        """a value that outlives the call (module variable, default argument): changing it is outside the contracts"""
        if isinstance(v, (LST, DCT)):
            self.shared.add(v.oid)
            for x in (v.items() if isinstance(v, LST) and v.concrete() else v.ent.values() if isinstance(v, DCT) else ()): self.share(x)
        elif isinstance(v, tuple):
            for x in v: self.share(x)
        return v
    def mutate(self, old, new):
        """the list or dict value `old` has become `new` (same oid): update every place that holds it"""
        if old.oid in self.shared: raise Unsupported('a module variable or default argument is modified')
        n = [0]
        def upd(v):
            if v is old or (isinstance(v, (LST, DCT)) and v.oid == old.oid and type(v) is type(old)): n[0] += 1; return new
            if isinstance(v, StructVal):
                f = {k: upd(x) for k, x in v.f.items()}
                return StructVal(v.tname, f) if any(f[k] is not v.f[k] for k in f) else v
            if isinstance(v, DCT):
                f = {k: upd(x) for k, x in v.ent.items()}
                return DCT(v.oid, f, v.rest) if any(f[k] is not v.ent[k] for k in f) else v
            if isinstance(v, LST) and v.concrete():
                it = [upd(x) for x in v.items()]
                return LST.of(it, v.oid, v.tup) if any(a is not b for a, b in zip(it, v.items())) else v
            if isinstance(v, tuple):
                t = tuple(upd(x) for x in v)
                return t if any(a is not b for a, b in zip(t, v)) else v
            return v
        for i in list(self.cells):
            v = self.cells[i]
            if isinstance(v, (LST, DCT, StructVal, tuple)):
                w = upd(v)
                if w is not v: self.cells[i] = w
        return n[0]

    # ------------------------------------------------------------ arrays
    def arr(self, shape, fn, dtype='float64'):
        """new array with the given element function (closed over current contents)"""
        shape = [simp(I(s)) for s in shape]
        return ND(self.new(NDC(shape, fn, dtype)), shape)
    def dtype(self, a): return self.cells[a.buf].dtype
    def reader(self, a):
        """element function of the array at this moment"""
        c = self.cells[a.buf]; im = a.imap
        if im is None: return c.fn
        v = c.via
        if v is not None and a.flat is not None and a.flat.eq(v[0]) and len(a.shape) == len(v[1]) and all(x.eq(y) for x, y in zip(a.shape, v[1])): return v[2]
        return lambda *i: c.fn(*im(*[I(x) for x in i]))
    def el(self, a, *i): return self.reader(a)(*[simp(I(x)) for x in i])
    def symarr(self, name, shape, sort='Real', dtype='float64'):
        f = self.ctx.freshfn(name, ['Int'] * len(shape), sort)
        a = self.arr(shape, lambda *i: f(*i), dtype)
        return a
    def setarr(self, a, fn):
        """in-place update: all elements of the view a become fn(idx)"""
        c = self.cells[a.buf]
        if a.imap is None:
            self.cells[a.buf] = NDC(c.shape, fn, c.dtype); return
        if a.flat is None or len(c.shape) != 1: raise Unsupported('write through a non-contiguous view')
        off = a.flat; n = z3.IntVal(1)
        for s in a.shape: n = simp(n * s)
        sh = a.shape; old = c.fn
        def g(o):
            o = I(o); q = simp(o - off)
            if len(sh) == 1: x = fn(q)
            elif len(sh) == 2: x = fn(idiv(q, sh[1]), imod(q, sh[1]))
            else: raise Unsupported('write through a view of this shape')
            return ite(simp(z3.And(off <= o, o < off + n)), x, old(o))
        self.cells[a.buf] = NDC(c.shape, g, c.dtype, (off, sh, fn))
    def fix_dtype(self, dt, x):
        if dt == 'bool': return x
        if dt.startswith('int') or dt.startswith('uint'): return x if z3.is_int(x) else ffloor(x)
        return R(x)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e)
    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)): return v
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')): raise Unsupported('non-finite constant')
            return R(v)
        if v is Ellipsis: return v
        raise Unsupported('constant %r' % v)
    def e_Name(self, e): return self.lookup(e.id)
    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = ast.unparse(v.format_spec) if v.format_spec is not None else ''
                if re.search(r'\.\d+[feg]', spec) and (x is None or isinstance(x, str)): raise CThrow('TypeError', 'format')
                if isinstance(x, str) and not spec and v.conversion == -1: parts.append(x)
                else: parts.append(None)
        if all(p is not None for p in parts): return ''.join(parts)
        return Opq('str', self.ctx.fresh('fstr'))
    def e_Tuple(self, e): return tuple(self.elts(e.elts))
    def e_List(self, e): return LST.of(self.elts(e.elts))
    def e_Set(self, e): return LibObj('set', self.elts(e.elts))
    def elts(self, l):
        out = []
        for x in l:
            if isinstance(x, ast.Starred):
                s = self.seq(self.ev(x.value)); n = cval(s.n)
                if n is None: raise Unsupported('unpacking a sequence of unknown length')
                out += [s.fn(z3.IntVal(i)) for i in range(n)]
            else: out.append(self.ev(x))
        return out
    def key(self, k):
        if isinstance(k, z3.ExprRef):
            c = cval(simp(k))
            if c is not None: return c
            raise Unsupported('dictionary key %s' % k)
        return k
    def e_Dict(self, e):
        d = DCT(newoid(), {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.asdict(self.ev(v))
                if x.rest is not None:
                    if d.ent or d.rest is not None: raise Unsupported('merging dictionaries of unknown content')
                    d = DCT(d.oid, x.ent, x.rest)
                else:
                    for a, b in x.ent.items(): d = d.set(a, b)
            else: d = d.set(self.key(self.ev(k)), self.ev(v))
        return d
    def e_Lambda(self, e):
        fd = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[], lineno=e.lineno, col_offset=0)
        return PyFunc(self.env.mod, fd, self.env, None, None, self.env.mod.name + '.<lambda>', [self.ev(d) for d in e.args.defaults])
    def e_IfExp(self, e):
        c = simp(self.truth(self.ev(e.test)))
        v = cval(c)
        if v is None and self.ctx.quick(c): v = True
        elif v is None and self.ctx.quick(z3.Not(c)): v = False
        if v is not None: return self.ev(e.body if v else e.orelse)
        def both():
            a = self.under([c], lambda: self.ev(e.body)); b = self.under([z3.Not(c)], lambda: self.ev(e.orelse))
            r = vmerge(c, a, b)
            if r is UNKNOWN: raise NeedBranch()
            return r
        r = self.pure(both)
        if r is not None: return r[0]
        return self.ev(e.body if self.decide(c) else e.orelse)
    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            t = simp(self.truth(v))
            c = cval(t)
            if c is not None:
                if bool(c) != isand: return v
                v = self.ev(x); continue
            if z3.is_expr(v) and z3.is_bool(v):
                r = self.pure(lambda: self.under([t if isand else z3.Not(t)], lambda: self.ev(x)))
                if r is not None and (isinstance(r[0], bool) or (z3.is_expr(r[0]) and z3.is_bool(r[0]))):
                    w = self.truth(r[0]); v = simp(z3.And(t, w) if isand else z3.Or(t, w)); continue
            if self.decide(t) != isand: return v if not (z3.is_expr(v) and z3.is_bool(v)) else z3.BoolVal(not isand)
            v = self.ev(x)
        return v
    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not): return simp(z3.Not(self.truth(v)))
        if isinstance(v, ND):
            r = self.reader(v)
            if isinstance(e.op, ast.USub): return self.arr(v.shape, lambda *i: -r(*i), self.dtype(v))
            if isinstance(e.op, ast.Invert) and self.dtype(v) == 'bool': return self.arr(v.shape, lambda *i: z3.Not(r(*i)), 'bool')
            raise Unsupported('array operator')
        x = self.num(v)
        if isinstance(e.op, ast.USub): return simp(-x)
        if isinstance(e.op, ast.UAdd): return x
        raise Unsupported('operator %s' % type(e.op).__name__)
    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))
    def binop(self, op, a, b):
        if isinstance(a, ND) or isinstance(b, ND): return self.nd_binop(op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == 'Add': return a + b
        if op == 'Mod' and (isinstance(a, str) or (isinstance(a, Opq) and a.cls == 'str')): return Opq('str', self.ctx.fresh('fmt'))
        if op == 'Add' and (isinstance(a, (str, Opq)) and isinstance(b, (str, Opq))): return self.lib.strcat(self, a, b)
        if isinstance(a, LST) and isinstance(b, LST) and op == 'Add':
            return LST(newoid(), a.n0, a.fn, a.tail + ((tuple(b.tail)) if cval(b.n0) == 0 else ((b.n, lambda i: b.at(i), None),)))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add': return a + b
        if isinstance(a, LibObj) or isinstance(b, LibObj) or isinstance(a, Lib) or isinstance(b, Lib): return self.lib.obj_binop(self, op, a, b)
        fr = self.lib.fraction_binop(self, op, a, b)
        if fr is not None: return fr
        if a is None or b is None: raise CThrow('TypeError')
        if not self.isnum(a) or not self.isnum(b):
            if isinstance(a, LST) and op == 'Mult' and a.concrete() and cval(self.num(b)) is not None: return LST.of(a.items() * cval(self.num(b)))
            a, b = self.num(a), self.num(b)
        a, b = self.num(a), self.num(b)
        if op in ('BitAnd', 'BitOr') : raise Unsupported('bit operation')
        r = self.arith(op, a, b, True)
        if (self.isnp(a) or self.isnp(b)) and z3.is_real(r): self.tagnp(r)
        return r
    def isnp(self, x): return z3.is_expr(x) and x.get_id() in self.npf
    def tagnp(self, x):
        """x is a numpy float64 scalar (not a Python float): arithmetic with float32 arrays gives float64"""
        if z3.is_expr(x) and cval(x) is None: self.npf[x.get_id()] = x
        return x
    def arith(self, op, a, b, py=True):
        ii = z3.is_int(a) and z3.is_int(b)
        if not ii and op in ('Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'Mod'): a, b = R(a), R(b)
        if op == 'Add': return simp(a + b)
        if op == 'Sub': return simp(a - b)
        if op == 'Mult': return simp(a * b)
        if op == 'Div':
            if py: self.nonzero(b)
            return self.cancel(R(a), R(b))
        if op == 'FloorDiv':
            if py: self.nonzero(b)
            if ii: return self.intdiv(a, b)[0]
            return toreal(ffloor(a / b))
        if op == 'Mod':
            if py: self.nonzero(b)
            if ii: return self.intdiv(a, b)[1]
            return simp(a - b * toreal(ffloor(a / b)))
        if op == 'Pow': return self.power(a, b, py)
        raise Unsupported('operator %s' % op)
    def cancel(self, a, b):
        """a / b (b nonzero) without the factors common to both"""
        if self.isnamed(b): return simp(a * self.named(b, True))
        if z3.is_div(b) and not z3.is_rational_value(b) and self.ctx.quick(b.arg(1) != 0): return self.cancel(simp(a * b.arg(1)), b.arg(0))
        def fac(t):
            if z3.is_mul(t): return [y for x in t.children() for y in fac(x)]
            return [t]
        fa, fb = fac(a), fac(b)
        den = []
        for y in fb:
            for k, x in enumerate(fa):
                if x.eq(y) and not z3.is_rational_value(x): del fa[k]; break
            else: den.append(y)
        if len(den) == len(fb): return simp(a / b)
        def prod(l):
            r = z3.RealVal(1)
            for x in l: r = r * x
            return simp(r)
        return simp(prod(fa) / prod(den)) if den else prod(fa)
    def intdiv(self, a, b):
        if not (cval(b) is not None and cval(b) > 0) and not self.ctx.quick(b > 0):
            if not self.decide(b > 0): raise Unsupported('division by a negative integer')
        return idiv(a, b), imod(a, b)
    def nonzero(self, b):
        c = cval(b)
        if c is not None:
            if c == 0: raise CThrow('ZeroDivisionError')
            return
        if self.ctx.quick(b != 0): return
        if self.decide(b == 0): raise CThrow('ZeroDivisionError')
    def power(self, a, b, py=True):
        c = cval(simp(b))
        if c == Fraction(1, 2): return fsqrt(a)
        if c == Fraction(-1, 2):
            if py: self.nonzero(a)
            return simp(1 / fsqrt(a))
        if c is not None and c == int(c):
            c = int(c)
            if 0 <= c <= 4:
                r = z3.IntVal(1) if z3.is_int(a) else z3.RealVal(1)
                for _ in range(c): r = r * a
                return simp(r)
            if -4 <= c < 0:
                if py: self.nonzero(a)
                r = z3.RealVal(1)
                for _ in range(-c): r = r * R(a)
                return simp(1 / r)
        return self.lib.fpow(R(a), R(b))
    def broadcast(self, a, b):
        sa = a.shape if isinstance(a, ND) else (); sb = b.shape if isinstance(b, ND) else ()
        ra = self.reader(a) if isinstance(a, ND) else None; rb = self.reader(b) if isinstance(b, ND) else None
        if not sa or not sb:
            xa = self.num(a) if ra is None else None; xb = self.num(b) if rb is None else None
            return (sa or sb), (ra or (lambda *i: xa)), (rb or (lambda *i: xb))
        n = max(len(sa), len(sb))
        shape = []; ma, mb = [], []
        for j in range(n):
            x = sa[j - (n - len(sa))] if j >= n - len(sa) else z3.IntVal(1)
            y = sb[j - (n - len(sb))] if j >= n - len(sb) else z3.IntVal(1)
            if simp(x).eq(simp(y)) or self.ctx.quick(x == y): shape.append(x); ma.append(True); mb.append(True)
            elif cval(x) == 1: shape.append(y); ma.append(False); mb.append(True)
            elif cval(y) == 1: shape.append(x); ma.append(True); mb.append(False)
            else:
                if not self.decide(x == y): raise CThrow('ValueError', 'broadcast')
                shape.append(x); ma.append(True); mb.append(True)
        fa = lambda *i: ra(*[(i[j] if ma[j] else z3.IntVal(0)) for j in range(n - len(sa), n)])
        fb = lambda *i: rb(*[(i[j] if mb[j] else z3.IntVal(0)) for j in range(n - len(sb), n)])
        return tuple(shape), fa, fb
    def nd_dtype(self, op, a, b):
        da = self.dtype(a) if isinstance(a, ND) else ('i' if z3.is_int(self.num(a)) else 'f')
        db = self.dtype(b) if isinstance(b, ND) else ('i' if z3.is_int(self.num(b)) else 'f')
        if not isinstance(a, ND) and self.isnp(a): da = 'float64'
        if not isinstance(b, ND) and self.isnp(b): db = 'float64'
        isf = lambda d: d.startswith('f')
        if op in ('Div', 'Pow') or isf(da) or isf(db):
            for d in (da, db):
                if d == 'float64': return 'float64'
            if {da, db} & {'float32'} and {da, db} <= {'float32', 'i', 'f'}: return 'float32'
            return 'float64'
        return 'int64'
    def nd_binop(self, op, a, b):
        if isinstance(a, (LST, tuple)): a = self.lib.asarray(self, a)
        if isinstance(b, (LST, tuple)): b = self.lib.asarray(self, b)
        shape, fa, fb = self.broadcast(a, b)
        if op in ('BitAnd', 'BitOr'):
            f = (lambda *i: z3.And(fa(*i), fb(*i))) if op == 'BitAnd' else (lambda *i: z3.Or(fa(*i), fb(*i)))
            return self.arr(shape, f, 'bool')
        dt = self.nd_dtype(op, a, b)
        cv = (lambda x: R(self.num(x))) if dt.startswith('f') else (lambda x: self.num(x))
        return self.arr(shape, lambda *i: self.arith(op, cv(fa(*i)), cv(fb(*i)), False), dt)
    def e_Compare(self, e):
        l = self.ev(e.left); acc = None
        for op, r in zip(e.ops, e.comparators):
            def one(l=l, op=op, r=r):
                rv = self.ev(r); return rv, self.compare(type(op).__name__, l, rv)
            if acc is None: rv, c = one()
            else:
                q = self.pure(lambda: self.under([acc], one))
                if q is not None: rv, c = q[0]
                else:
                    if not self.decide(acc): return z3.BoolVal(False)
                    acc = None; rv, c = one()
            if isinstance(c, ND): 
                if len(e.ops) > 1: raise Unsupported('chained array comparison')
                return c
            acc = c if acc is None else simp(z3.And(acc, c))
            l = rv
        return acc
    def compare(self, op, a, b):
        if isinstance(a, ND) or isinstance(b, ND):
            if op in ('Is', 'IsNot'):
                r = isinstance(a, ND) and isinstance(b, ND) and a is b
                return z3.BoolVal(r if op == 'Is' else not r)
            shape, fa, fb = self.broadcast(a, b)
            return self.arr(shape, lambda *i: self.cmpnum(op, fa(*i), fb(*i)), 'bool')
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else simp(z3.Not(r))
        if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            r = self.equal(a, b, op in ('Is', 'IsNot'))
            return r if op in ('Is', 'Eq') else simp(z3.Not(r))
        if isinstance(a, tuple) and isinstance(b, tuple): raise Unsupported('ordering of tuples')
        if a is None or b is None: raise CThrow('TypeError')
        return self.cmpnum(op, self.num(a), self.num(b))
    def cmpnum(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if a.sort() != b.sort(): a, b = R(a), R(b)
        r = {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b}[op]()
        return simp(r)
    def equal(self, a, b, ident=False):
        if isinstance(a, ORef) and isinstance(b, ORef): return z3.BoolVal(a.id == b.id)
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.cls != b.cls: return z3.BoolVal(False)
            return simp(a.id == b.id)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opq) and x.cls == 'str' and isinstance(y, str): return simp(x.id == self.strcode(y))
            if isinstance(x, Opq) and not self.isnum(y): 
                q = self.opq.get(x.cls, {}).get('__eq__')
                if q: return q(self, x, y)
                return z3.BoolVal(False)
        if a is None or b is None: return z3.BoolVal(a is None and b is None)
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return z3.BoolVal(type(a) is type(b) and a == b)
        if self.isnum(a) and self.isnum(b):
            if z3.is_expr(a) and z3.is_expr(b) and z3.is_bool(a) and z3.is_bool(b): return simp(a == b)
            if ident and (isinstance(a, bool) or isinstance(b, bool)):
                x, y = (a, b) if isinstance(b, bool) else (b, a)
                if z3.is_expr(x) and z3.is_bool(x): return simp(x if y else z3.Not(x))
                return z3.BoolVal(isinstance(x, bool) and x == y)
            return self.cmpnum('Eq', a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return z3.BoolVal(False)
            return simp(conj([self.equal(x, y) for x, y in zip(a, b)]))
        if isinstance(a, (Lib, PyClass, PyFunc)) or isinstance(b, (Lib, PyClass, PyFunc)): return z3.BoolVal(same(a, b))
        fr = self.lib.fraction_binop(self, 'Eq', a, b)
        if fr is not None: return fr
        if same(a, b): return z3.BoolVal(True)
        if isinstance(a, LST) and isinstance(b, LST) and a.concrete() and b.concrete():
            if len(a.items()) != len(b.items()): return z3.BoolVal(False)
            return simp(conj([self.equal(x, y) for x, y in zip(a.items(), b.items())]))
        if self.isnum(a) != self.isnum(b): return z3.BoolVal(False)
        raise Unsupported('equality of %r and %r' % (type(a).__name__, type(b).__name__))
    def contains(self, c, x):
        if isinstance(c, ORef):
            f = self.cells[c.id].f
            if '__dict__' in f: c = f['__dict__']
            elif '__list__' in f: c = f['__list__']
        if isinstance(c, DCT):
            k = x if isinstance(x, (str, int, Opq)) else self.key(x)
            if not isinstance(k, Opq):
                if k in c.ent: return z3.BoolVal(True)
                if c.rest is None: return z3.BoolVal(False)
            r = self.lib.dict_has(self, c, k)
            return r
        if isinstance(c, LibObj) and c.name == 'set': return simp(disj([self.equal(x, y) for y in c.args]))
        if isinstance(c, tuple): return simp(disj([self.equal(x, y) for y in c]))
        if isinstance(c, LST) and c.concrete(): return simp(disj([self.equal(x, y) for y in c.items()]))
        if isinstance(c, str) and isinstance(x, str): return z3.BoolVal(x in c)
        r = self.lib.contains(self, c, x)
        if r is not None: return r
        raise Unsupported('membership in %r' % (c,))
    def e_Attribute(self, e): return self.getattr(self.ev(e.value), e.attr)
    def e_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.index(e.slice))
    def index(self, s):
        if isinstance(s, ast.Slice): return ('slice', *[None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple): return tuple(self.index(x) for x in s.elts)
        return self.ev(s)
    def slc(self, sl, n):
        """(lo, length) of a step-1 slice of a sequence of length n"""
        _, lo, hi, st = sl
        if st is not None and cval(self.num(st)) != 1: raise Unsupported('slice step')
        def clamp(x, dflt):
            if x is None: return dflt
            x = self.num(x)
            if z3.is_real(x): raise CThrow('TypeError')
            if cval(x) is not None and cval(x) < 0: x = simp(n + x)
            elif cval(x) is None and not self.ctx.quick(x >= 0): x = z3.If(x < 0, n + x, x)
            if cval(x) == 0: return x
            if self.ctx.quick(z3.And(0 <= x, x <= n)): return simp(x)
            return simp(z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x)))
        l, h = clamp(lo, z3.IntVal(0)), clamp(hi, n)
        d = simp(h - l)
        if self.ctx.quick(d >= 0): return l, d
        return l, simp(z3.If(d >= 0, d, z3.IntVal(0)))
    def getitem(self, o, ix):
        if isinstance(o, ND): return self.lib.nd_get(self, o, ix)
        if isinstance(o, ORef):
            f = self.cells[o.id].f
            if '__dict__' in f: return self.getitem(f['__dict__'], ix)
            if '__list__' in f: return self.getitem(f['__list__'], ix)
            cl = self.cells[o.id].tname
        if isinstance(o, (DCT,)):
            if isinstance(ix, Opq): return self.lib.dict_get(self, o, ix)
            k = self.key(ix)
            if k in o.ent: return o.ent[k]
            if o.rest is not None: return self.lib.dict_get(self, o, k)
            raise CThrow('KeyError', str(k))
        if isinstance(o, (LST, Seq)):
            n = o.n
            if isinstance(ix, tuple) and ix and ix[0] == 'slice':
                if isinstance(o, LST) and o.concrete() and all(x is None or cval(self.num(x)) is not None for x in ix[1:]):
                    f = [None if x is None else cval(self.num(x)) for x in ix[1:]]
                    return LST.of(o.items()[slice(*f)])
                l, d = self.slc(ix, n)
                at = o.at if isinstance(o, LST) else o.fn
                return LST(newoid(), d, lambda i: at(simp(l + I(i))))
            i = self.num(ix)
            if z3.is_real(i): raise CThrow('TypeError')
            return self.seq_at(o, i)
        if isinstance(o, tuple):
            if isinstance(ix, tuple) and ix and ix[0] == 'slice': return o[slice(*[None if x is None else cval(self.num(x)) for x in ix[1:]])]
            c = cval(self.num(ix))
            if c is None: return self.getitem(LST.of(o), ix)
            try: return o[c]
            except IndexError: raise CThrow('IndexError')
        if isinstance(o, Rec) and o.order:
            return self.getitem(tuple(o.f[k] for k in o.order), ix)
        if isinstance(o, (str, bytes)) and not isinstance(ix, tuple) and cval(self.num(ix)) is not None:
            try: return o[cval(self.num(ix))]
            except IndexError: raise CThrow('IndexError')
        if isinstance(o, (str, bytes)) and isinstance(ix, tuple) and ix[0] == 'slice' and all(x is None or cval(self.num(x)) is not None for x in ix[1:]):
            return o[slice(*[None if x is None else cval(self.num(x)) for x in ix[1:]])]
        r = self.lib.getitem(self, o, ix)
        if r is not NotImplemented: return r
        if o is None: raise CThrow('TypeError')
        raise Unsupported('subscript of %r' % (o,))
    def seq_at(self, o, i):
        n = o.n
        c = cval(i)
        if c is not None and c < 0: i = simp(n + i)
        elif c is None and not self.ctx.quick(i >= 0):
            if self.decide(i < 0): i = simp(i + n)
        if not self.ctx.quick(z3.And(0 <= i, i < n)):
            if not self.decide(z3.And(0 <= i, i < n)): raise CThrow('IndexError')
        return o.at(i, self.ctx) if isinstance(o, LST) else o.fn(i)
    def asdict(self, v):
        if isinstance(v, DCT): return v
        if isinstance(v, ORef) and '__dict__' in self.cells[v.id].f: return self.cells[v.id].f['__dict__']
        raise Unsupported('not a dictionary: %r' % (v,))

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e): return self.comp(e.generators, lambda: self.ev(e.elt))
    def e_GeneratorExp(self, e): return self.comp(e.generators, lambda: self.ev(e.elt))
    def e_SetComp(self, e): raise Unsupported('set comprehension')
    def e_DictComp(self, e):
        if len(e.generators) != 1: raise Unsupported('nested dict comprehension')
        l = self.comp(e.generators, lambda: (self.ev(e.key), self.ev(e.value)))
        if l.concrete():
            d = DCT(newoid(), {})
            for k, v in l.items(): d = d.set(self.key(k) if not isinstance(k, Opq) else k, v)
            return d
        return self.lib.symdict(self, l)
    def comp(self, gens, elt):
        env = Env(self.env.mod, self.env, self.env.func); old = self.env; self.env = env
        try:
            cell = self.new(LST(newoid(), 0, None))
            env.vars['<out>'] = cell
            def rec(gi):
                if gi == len(gens):
                    v = elt(); self.cells[cell] = self.cells[cell].append(self.freeze(v)); return
                g = gens[gi]
                it = self.ev(g.iter)
                def body():
                    for c in g.ifs:
                        if not self.istrue(self.ev(c)): return
                    rec(gi + 1)
                self.forloop(it, g.target, body, 'comprehension')
            rec(0)
            r = self.cells[cell]
            return LST(newoid(), r.n0, r.fn, r.tail)
        finally: self.env = old
    def freeze(self, v):
        """value stored in a container built by a loop: objects created in the iteration are stored by content"""
        if isinstance(v, ORef) and self.frozen_from is not None and v.id >= self.frozen_from:
            c = self.cells[v.id]
            return Rec(c.tname, {k: self.freeze(x) for k, x in c.f.items()})
        if isinstance(v, ND) and self.frozen_from is not None and v.buf >= self.frozen_from:
            c = self.cells[v.buf]; rd_ = self.reader(v)
            return Rec('ndarray', {'nd': NDC(v.shape, rd_, c.dtype)})
        if isinstance(v, tuple): return tuple(self.freeze(x) for x in v)
        return v
    frozen_from = None
    def thaw(self, v):
        if isinstance(v, Rec) and v.cls == 'ndarray': 
            c = v.f['nd']; return self.arr(c.shape, c.fn, c.dtype)
        return v

    # ------------------------------------------------------------ sequences and for loops
    def seq(self, v):
        if isinstance(v, Seq): return v
        if isinstance(v, LST): return Seq(v.n, lambda i: v.at(i, self.ctx))
        if isinstance(v, tuple):
            l = LST.of(v); return Seq(z3.IntVal(len(v)), lambda i: l.at(i))
        if isinstance(v, Rec) and v.order: return self.seq(tuple(v.f[k] for k in v.order))
        if isinstance(v, ND):
            r = self.reader(v)
            if len(v.shape) == 1: return Seq(v.shape[0], lambda i: r(i))
            return Seq(v.shape[0], lambda i: self.lib.nd_get(self, v, i))
        if isinstance(v, DCT) and v.rest is None: return self.seq(tuple(v.ent.keys()))
        if isinstance(v, ORef):
            f = self.cells[v.id].f
            if '__list__' in f: return self.seq(f['__list__'])
            if '__dict__' in f: return self.seq(f['__dict__'])
        if isinstance(v, LibObj) and v.name == 'set': return self.seq(tuple(v.args))
        if isinstance(v, str): return self.seq(tuple(v))
        r = self.lib.seq(self, v)
        if r is not None: return r
        if self.isnum(v) or v is None: raise CThrow('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))
    def forloop(self, it, target, body, name, orelse=None):
        s = self.seq(it)
        n = cval(s.n)
        if n is not None and n <= self.unroll_limit:
            for j in range(max(0, n)):
                try:
                    self.assign(target, self.thaw(s.fn(z3.IntVal(j)))); body()
                except CContinue: pass
                except CBreak: return
            if orelse: orelse()
            return
        ic = self.new(z3.IntVal(0))
        cond = lambda: simp(self.cells[ic] < s.n)
        def bd(): self.assign(target, self.thaw(s.fn(self.cells[ic]))); body()
        def inc(): self.cells[ic] = simp(self.cells[ic] + 1)
        self.loopseq = s; sp = self.find_inv(name)
        if sp is not None: self.invloop(sp, cond, bd, inc, name, ic, s)
        else: self.sumloop(cond, bd, inc, name)
        if isinstance(target, ast.Name) and target.id not in self.env.vars and not target.id in self.env.glob: self.setvar(self.env, target.id, (s.n, s.fn))
        if orelse: orelse()
    def sumloop(self, cond, bd, inc, name):
        old = self.frozen_from; self.frozen_from = self.nid
        try: self.loop(cond, bd, inc, name)
        finally: self.frozen_from = old
    def find_inv(self, name):
        for sp in self.invs:
            try:
                if sp.match(self, name): return sp
            except (KeyError, LookupError, CThrow): pass
        return None
    def loc(self, name):
        """value of a local variable (for invariants)"""
        e = self.env
        while e is not None:
            if isinstance(e.vars.get(name), int): return self.cells[e.vars[name]]
            e = e.parent
        raise LookupError(name)
    def invloop(self, sp, cond, body, inc, name, ic, s=None):
        """loop with an invariant supplied by the contract"""
        ctx = self.ctx
        k0 = self.cells[ic] if ic is not None else None
        nm = '%s: %s' % (ctx.func, sp.name)
        for n, f in sp.inv(self, k0): self.oblige(nm + ' invariant holds initially: ' + n, f, 'invariant')
        S0 = self.snap(); nid0 = self.nid
        # modified locations
        mod = {}; base = (list(ctx.pc), list(ctx.pck), list(ctx.foralls))
        havd = {}
        def havoc():
            self.restore(S0)
            for loc in sorted(mod, key=str):
                v0 = self.getleaf(S0[0][loc[0]], loc[1])
                if loc in mod and mod[loc] is None:
                    w = None
                    for path, sh in sp.shapes.items():
                        try: cid = self.cellof(path)
                        except LookupError: continue
                        if cid == loc[0]: w = sh(self, v0)
                    if w is None: w = DCT(v0.oid, {}, LibObj('unknown content')) if isinstance(v0, DCT) else self.havoc_py(v0)
                    self.cells[loc[0]] = self.setleaf(self.cells[loc[0]], loc[1], w)
            if ic is not None:
                ctx.assume(self.cells[ic] >= 0)
                if s is not None: ctx.assume(self.cells[ic] <= s.n)
            for n, f in sp.inv(self, self.cells[ic] if ic is not None else None): self.assume_fact(f)
            if sp.facts: sp.facts(self)
        for rnd in range(8):
            ctx.quiet += 1
            fr = ctx.fresh_n
            try:
                def trial():
                    havoc()
                    c = cond()
                    ctx.assume(c if z3.is_expr(c) else z3.BoolVal(c))
                    if not ctx.feasible(): raise Infeasible()
                    st = self.snap()
                    try:
                        try: body()
                        except CContinue: pass
                        inc()
                    except Abrupt: return None
                    return st
                paths = self.explore(trial)
            finally:
                ctx.quiet -= 1
                ctx.pc, ctx.pck, ctx.foralls = [list(x) for x in base]; ctx.fresh_n = fr
                self.restore(S0)
            new = False
            for p in paths:
                if p.outcome is None: continue
                mc, _ = self.diff(p.outcome, p.state)
                for l in mc:
                    if l[0] in S0[0] and l not in mod: mod[l] = None; new = True
            if not new: break
        else: raise Unsupported('modified set of a loop does not stabilise')
        havoc()
        st0 = self.snap()
        c = cond()
        if self.decide(c if z3.is_expr(c) else z3.BoolVal(bool(c))):
            v0 = sp.variant(self) if sp.variant else None
            try: body()
            except CContinue: pass
            except CBreak: return
            inc()
            self.proving = True
            try: fs = list(sp.inv(self, self.cells[ic] if ic is not None else None))
            finally: self.proving = False
            for n, f in fs: self.oblige(nm + ' invariant is preserved: ' + n, f, 'invariant')
            if v0 is not None:
                v1 = sp.variant(self)
                self.oblige(nm + ' terminates', z3.And(v0 >= 0, v1 < v0), 'termination')
            raise Infeasible()
        if sp.variant is None and s is None: ctx.assumptions.append('termination of a loop in %s' % ctx.func)
    def cellof(self, name):
        e = self.env
        while e is not None:
            if isinstance(e.vars.get(name), int): return e.vars[name]
            e = e.parent
        raise LookupError(name)
    def havoc_py(self, v):
        if isinstance(v, AMap): return v.havoc(self.ctx)
        if isinstance(v, LST):
            u = z3.IntVal(0)
            samp = v.at(u) if (v.tail or v.fn) else None
            if z3.is_expr(samp):
                f = self.ctx.freshfn('hl', ['Int'], samp.sort().name()); n = self.ctx.fresh('hln'); self.ctx.assume(n >= 0)
                return LST(newoid(), n, lambda i: f(I(i)))
            if isinstance(samp, Opq):
                f = self.ctx.freshfn('hl', ['Int'], 'Int'); n = self.ctx.fresh('hln'); self.ctx.assume(n >= 0)
                return LST(newoid(), n, lambda i: Opq(samp.cls, f(I(i))))
            raise Unsupported('list of unknown content at the head of a loop')
        return self.havoc_leaf(v, 'l')

    # ------------------------------------------------------------ obligations over formulas and bounded quantifiers
    proving = False      # the fact is being proved, not used
    def oblige(self, name, f, kind='post'):
        ctx = self.ctx
        if isinstance(f, FA):
            us = [ctx.fresh('u') for _ in range(f.nv)]
            n, nf = len(ctx.pc), len(ctx.foralls)
            try:
                self.proving = True
                try: h, g = f.fn(*us)
                finally: self.proving = False
                ctx.assume(h)
                return self.oblige(name, g, kind)
            finally: del ctx.pc[n:]; del ctx.pck[n:]; del ctx.foralls[nf:]
        return ctx.oblige(name, f, kind)
    def assume_fact(self, f):
        if isinstance(f, FA): f.register(self)
        else: self.ctx.assume(f)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, ModVal):
            m = load(self.repo, o.name)
            if o.name == 'riptide' and name == 'libcpp': return Lib('riptide.libcpp')
            v = self.modval(m, name)
            if v is not None: return v
            sub = load(self.repo, o.name + '.' + name)
            if sub is not None: return ModVal(sub.name)
            raise Unsupported('attribute %s of module %s' % (name, o.name))
        if isinstance(o, Lib):
            v = self.lib.const(self, o.name + '.' + name)
            return v if v is not NotImplemented else Lib(o.name + '.' + name)
        if isinstance(o, ORef):
            c = self.cells[o.id]
            if name in c.f: return c.f[name]
            cls = self.objcls(o)
            if name == '__class__': return cls
            if cls is not None:
                v = self.clsattr(cls, name, o)
                if v is not NotImplemented: return v
            if '__dict__' in c.f or '__list__' in c.f: return BoundM(o, name)
            raise CThrow('AttributeError', name)
        if isinstance(o, PyClass):
            if name == '__name__': return o.name
            v = self.clsattr(o, name, None)
            if v is not NotImplemented: return v
            return self.lib.clsattr(self, o, name)
        if isinstance(o, Opq):
            if (o.cls, name) in self.attrs: return self.cells[self.attrs[(o.cls, name)]].fn(o.id)
            d = self.opq.get(o.cls, {})
            if name in d:
                a = d[name]
                if callable(a): return a(self, o)
                if a == 'str' or a.startswith('cls:'):
                    f = z3.Function('%s.%s' % (o.cls, name), z3.IntSort(), z3.IntSort())
                    return Opq('str' if a == 'str' else a[4:], f(o.id))
                f = z3.Function('%s.%s' % (o.cls, name), z3.IntSort(), SORT[a])
                return f(o.id)
            cls = d.get('__class__')
            if cls is not None:
                m, cn = cls
                v = self.clsattr(self.modval(load(self.repo, m), cn), name, o)
                if v is not NotImplemented: return v
            return BoundM(o, name)
        if isinstance(o, Rec):
            if name in o.f: return o.f[name]
            cls = self.reccls(o.cls)
            if cls is not None:
                v = self.clsattr(cls, name, o)
                if v is not NotImplemented: return v
            return BoundM(o, name)
        if isinstance(o, SuperV): return o.get(self, name)
        if isinstance(o, PyFunc) and name == '__name__': return o.node.name
        r = self.lib.attr(self, o, name)
        if r is not NotImplemented: return r
        if o is None: raise CThrow('AttributeError', name)
        return BoundM(o, name)
    def reccls(self, nm):
        for (mn, n), v in list(self.globs.items()):
            if isinstance(v, PyClass) and v.name == nm: return v
        return None
    def objcls(self, o):
        c = self.cells[o.id]
        return c.f.get('__class__')
    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            old = self.env; self.env = Env(cls.mod)
            try: bv = self.ev(b)
            finally: self.env = old
            if isinstance(bv, PyClass): out += self.mro(bv)
            else: out.append(bv)
        return out
    def clsattr(self, cls, name, o):
        for c in self.mro(cls):
            if not isinstance(c, PyClass): continue
            for st in c.node.body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    decs = [ast.unparse(d) for d in st.decorator_list]
                    f = self.mkfunc(c.mod, st, None, c)
                    if 'property' in decs and o is not None: return self.call(f, [o], {})
                    if 'classmethod' in decs: return f.bind(cls) if isinstance(f, PyFunc) else ('bound', f, cls)
                    if 'staticmethod' in decs or o is None: return f
                    return f.bind(o)
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    old = self.env; self.env = Env(c.mod)
                    try: return self.ev(st.value)
                    finally: self.env = old
        return NotImplemented
    def setattr(self, o, name, v):
        if isinstance(o, ORef):
            c = self.cells[o.id]; self.cells[o.id] = StructVal(c.tname, {**c.f, name: v}); return
        if isinstance(o, Opq) and (o.cls, name) in self.attrs:
            i = self.attrs[(o.cls, name)]
            self.cells[i] = self.cells[i].set(o.id, v); return
        raise Unsupported('assignment to attribute %s of %r' % (name, o))

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.mksuper(e)
        f = self.ev(e.func)
        if isinstance(f, BoundM) and isinstance(f.obj, LibObj) and f.obj.name == 'logging.Logger':
            for a in e.args:
                if isinstance(a, ast.JoinedStr) or isinstance(a, ast.Call): 
                    try: self.ev(a)
                    except Unsupported: pass
            return None
        args = self.elts(e.args); kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.asdict(self.ev(k.value))
                if d.rest is not None: kw['**'] = d
                kw.update(d.ent)
            else: kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)
    def mksuper(self, e):
        env = self.env
        while env is not None and env.func is None: env = env.parent
        f = env.func
        selfname = f.node.args.args[0].arg
        return SuperV(f.cls, self.lookup(selfname))
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, tuple) and f and f[0] == 'bound': return self.call(f[1], [f[2]] + list(args), kw)
        if isinstance(f, PyFunc): return self.callpy(f, args, kw)
        if isinstance(f, PyClass): return self.instantiate(f, args, kw)
        if isinstance(f, Lib): return self.lib.call(self, f.name, list(args), dict(kw))
        if isinstance(f, Native): return f.fn(*args, **kw)
        if isinstance(f, BoundM): return self.lib.method(self, f.obj, f.name, list(args), dict(kw))
        if isinstance(f, ORef):
            m = self.getattr(f, '__call__'); return self.call(m, args, kw)
        if isinstance(f, LibObj): return self.lib.callobj(self, f, list(args), dict(kw))
        if isinstance(f, Opq): return self.lib.method(self, f, '__call__', list(args), dict(kw))
        if f is None: raise CThrow('TypeError')
        raise Unsupported('call of %r' % (f,))
    def callpy(self, f, args, kw):
        if f.self_ is not None: args = [f.self_] + list(args)
        c = self.contracts.get(f.qual)
        if c is not None and self.top == f.qual: self.top = None; c = None
        if c is not None:
            self.used_contracts.add(f.qual)
            b = self.bindargs(f, args, kw)
            return c(self, b)
        if self.calldepth > 12: raise Unsupported('call depth in %s' % f.qual)
        b = self.bindargs(f, args, kw)
        env = Env(f.mod, f.env, f)
        old = self.env; self.env = env; self.calldepth += 1
        try:
            for k, v in b.items(): env.vars[k] = self.new(v)
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own_nodes(f.node))
            if gen: env.vars['<yield>'] = self.new(LST(newoid(), 0, None))
            r = None
            try: self.block(f.node.body)
            except CReturn as x: r = x.v
            if gen: r = self.cells[env.vars['<yield>']]
            return r
        finally: self.env = old; self.calldepth -= 1
    top = None
    def own_nodes(self, n):
        st = list(n.body)
        while st:
            x = st.pop()
            yield x
            for c in ast.iter_child_nodes(x):
                if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): st.append(c)
    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        kw = dict(kw); unk = kw.pop('**', None)
        pos = list(args)
        if len(pos) > len(names) and a.vararg is None: raise CThrow('TypeError', 'too many arguments')
        for n, v in zip(names, pos): b[n] = v
        if a.vararg is not None: b[a.vararg.arg] = tuple(pos[len(names):])
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in allowed:
                if k in b: raise CThrow('TypeError', 'multiple values')
                b[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: raise CThrow('TypeError', 'unexpected keyword %s' % k)
        if a.kwarg is not None: b[a.kwarg.arg] = DCT(newoid(), extra, unk.rest if unk is not None else None)
        elif unk is not None: b['**'] = unk
        defs = a.defaults
        old = self.env
        for n, d in list(zip(names[len(names) - len(defs):], defs)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in b:
                if unk is not None: b[n] = self.lib.maybe_kw(self, unk, n, d, f); continue
                if f.defaults is not None and n in names: b[n] = f.defaults[names.index(n) - (len(names) - len(defs))]; continue
                self.env = f.env or Env(f.mod)
                try: b[n] = self.share(self.ev(d))
                finally: self.env = old
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in b: raise CThrow('TypeError', 'missing argument %s' % n)
        return b
    def instantiate(self, cls, args, kw):
        c = self.contracts.get(cls.mod.name + '.' + cls.name)
        if c is not None:
            self.used_contracts.add(cls.mod.name + '.' + cls.name)
            return c(self, args, kw)
        mro = self.mro(cls)
        libs = [x.name for x in mro if isinstance(x, Lib)]
        if 'typing.NamedTuple' in libs:
            fields = [st.target.id for st in cls.node.body if isinstance(st, ast.AnnAssign)]
            f = dict(zip(fields, args))
            for k, v in kw.items():
                if k not in fields or k in f: raise CThrow('TypeError', k)
                f[k] = v
            if set(f) != set(fields): raise CThrow('TypeError', 'missing field')
            return Rec(cls.name, {k: f[k] for k in fields}, tuple(fields))
        if any(l in EXC_PARENT for l in libs): return LibObj('exc:' + cls.name, args)
        f = {'__class__': cls}
        if 'dict' in libs: f['__dict__'] = DCT(newoid(), {})
        if 'list' in libs: f['__list__'] = LST(newoid(), 0, None)
        o = ORef(self.new(StructVal(cls.name, f)))
        init = self.clsattr(cls, '__init__', o)
        if init is not NotImplemented: self.call(init, args, kw)
        elif args or kw:
            if 'dict' in libs or 'list' in libs: SuperV(cls, o).get(self, '__init__').fn(*args, **kw)
            else: raise CThrow('TypeError')
        return o

    # ------------------------------------------------------------ statements
    def block(self, b):
        for s in b: self.stmt(s)
    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(s).__name__)
        return m(s)
    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        if isinstance(s.value, ast.Yield): return self.do_yield(s.value)
        self.ev(s.value)
    def e_Yield(self, e): return self.do_yield(e)
    def do_yield(self, y):
        v = self.ev(y.value) if y.value is not None else None
        env = self.env
        while '<yield>' not in env.vars: env = env.parent
        i = env.vars['<yield>']
        self.cells[i] = self.cells[i].append(self.freeze(v))
    def s_Pass(self, s): pass
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
    def assign(self, t, v):
        if isinstance(t, ast.Name): self.bindname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported('starred assignment')
            s = self.seq(v); n = cval(s.n)
            if n is None:
                if not self.decide(s.n == len(t.elts)): raise CThrow('ValueError', 'unpack')
                n = len(t.elts)
            if n != len(t.elts): raise CThrow('ValueError', 'unpack')
            for j, x in enumerate(t.elts): self.assign(x, s.fn(z3.IntVal(j)))
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value); self.setitem(o, self.index(t.slice), v)
        else: raise Unsupported('assignment target')
    def setitem(self, o, ix, v):
        if isinstance(o, ORef) and '__dict__' in self.cells[o.id].f: o = self.cells[o.id].f['__dict__']
        if isinstance(o, DCT):
            if isinstance(ix, z3.ExprRef) and z3.is_int(ix) and cval(simp(ix)) is None:
                # any key: the content is not known any more
                if self.mutate(o, DCT(o.oid, {}, LibObj('unknown content'))) == 0: raise Unsupported('item assignment to a temporary dictionary')
                return
            k = ix if isinstance(ix, Opq) else self.key(ix)
            if isinstance(k, Opq) and getattr(self, 'dlog', False) and not o.ent and (o.rest is None or isinstance(o.rest, LibObj) and o.rest.name == 'log'):
                # a record of the assignments in order
                l = o.rest.args[0] if o.rest is not None else LST(newoid(), 0, None)
                if self.mutate(o, DCT(o.oid, {}, LibObj('log', [l.append((k, self.freeze(v)))]))) == 0: raise Unsupported('item assignment to a temporary dictionary')
                return
            if isinstance(k, Opq) : return self.lib.dict_set(self, o, k, v)
            if self.mutate(o, o.set(k, v)) == 0: raise Unsupported('item assignment to a temporary dictionary')
            return
        if isinstance(o, LST) and o.concrete() and not isinstance(ix, tuple):
            c = cval(self.num(ix))
            if c is not None:
                it = o.items()
                try: it[c] = v
                except IndexError: raise CThrow('IndexError')
                self.mutate(o, LST.of(it, o.oid)); return
        if isinstance(o, ND): return self.lib.nd_set(self, o, ix, v)
        raise Unsupported('item assignment to %r' % (o,))
    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name): cur = self.lookup(t.id)
        elif isinstance(t, ast.Attribute): o = self.ev(t.value); cur = self.getattr(o, t.attr)
        else: o = self.ev(t.value); ix = self.index(t.slice); cur = self.getitem(o, ix)
        v = self.ev(s.value)
        if isinstance(cur, ND):
            if isinstance(v, LST): v = self.lib.asarray(self, v)
            r = self.nd_binop(op, cur, v)
            if len(r.shape) != len(cur.shape): raise CThrow('ValueError')
            rd_ = self.reader(r); dt = self.dtype(cur)
            if self.dtype(r).startswith('f') and not dt.startswith('f'): raise CThrow('TypeError', 'casting')
            self.setarr(cur, lambda *i: self.fix_dtype(dt, rd_(*i)))
            new = cur
            if isinstance(t, ast.Subscript): return
        elif isinstance(cur, LST) and op == 'Add':
            s2 = self.seq(v); self.mutate(cur, self.lib.lst_extend(self, cur, s2)); return
        else: new = self.binop(op, cur, v)
        if isinstance(t, ast.Name): self.bindname(t.id, new)
        elif isinstance(t, ast.Attribute): self.setattr(o, t.attr, new)
        else: self.setitem(o, ix, new)
    def s_If(self, s):
        if self.istrue(self.ev(s.test)): self.block(s.body)
        else: self.block(s.orelse)
    def s_Return(self, s): raise CReturn(None if s.value is None else self.ev(s.value))
    def s_Break(self, s): raise CBreak()
    def s_Continue(self, s): raise CContinue()
    def s_Raise(self, s):
        if s.exc is None:
            raise CThrow(self.curexc or 'Exception')
        n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        v = self.ev(n)
        nm = v.name.split('.')[-1] if isinstance(v, (Lib, PyClass)) else None
        if nm is None: raise Unsupported('raise')
        raise CThrow(nm)
    curexc = None
    def isexc(self, et, names):
        if names is None: return True
        seen = et
        while seen is not None:
            if seen in names: return True
            if seen not in EXC_PARENT:
                for (mn, n), v in list(self.globs.items()):
                    if isinstance(v, PyClass) and v.name == seen:
                        return any(isinstance(b, Lib) and self.isexc(b.name, names) for b in self.mro(v)[1:])
                return 'Exception' in names or 'BaseException' in names
            seen = EXC_PARENT[seen]
        return False
    def s_Try(self, s):
        try:
            try: self.block(s.body)
            except CThrow as x:
                for h in s.handlers:
                    names = None
                    if h.type is not None:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        names = [ast.unparse(t).split('.')[-1] for t in ts]
                    if self.isexc(x.etype, names):
                        if h.name: self.bindname(h.name, LibObj('exc:' + x.etype, []))
                        old = self.curexc; self.curexc = x.etype
                        try: self.block(h.body)
                        finally: self.curexc = old
                        break
                else: raise
            else: self.block(s.orelse)
        finally:
            import sys
            et = sys.exc_info()[0]
            if s.finalbody and et not in (Infeasible, Unsupported, NeedBranch, Deadline): self.block(s.finalbody)
    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            w = self.lib.enter(self, v)
            if it.optional_vars is not None: self.assign(it.optional_vars, w)
        self.block(s.body)
    def s_For(self, s):
        it = self.ev(s.iter)
        self.forloop(it, s.target, lambda: self.block(s.body), s, (lambda: self.block(s.orelse)) if s.orelse else None)
    def s_While(self, s):
        if s.orelse: raise Unsupported('while-else')
        cond = lambda: self.truth(self.ev(s.test))
        self.loopseq = None; sp = self.find_inv(s)
        if sp is not None: self.invloop(sp, cond, lambda: self.block(s.body), lambda: None, s, None)
        else: self.sumloop(cond, lambda: self.block(s.body), lambda: None, 'while')
    def s_FunctionDef(self, s):
        q = (self.env.func.qual if self.env.func else self.env.mod.name) + '.' + s.name
        f = self.mkfunc(self.env.mod, s, self.env, None, q)
        if isinstance(f, PyFunc) and s.args.defaults: f.defaults = [self.ev(d) for d in s.args.defaults]
        self.bindname(s.name, f)
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name): self.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value); self.lib.method(self, o, 'pop', [self.index(t.slice)], {})
            else: raise Unsupported('del')
    def s_Import(self, s):
        for a in s.names: self.bindname(a.asname or a.name.split('.')[0], self.imported(a.name if a.asname else a.name.split('.')[0], None))
    def s_ImportFrom(self, s):
        base = s.module or ''
        for a in s.names: self.bindname(a.asname or a.name, self.imported(base, a.name))
    def s_Nonlocal(self, s): self.env.glob |= set(s.names)
    def s_Assert(self, s):
        if not self.istrue(self.ev(s.test)): raise CThrow('AssertionError')

class SuperV:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
    def get(self, E, name):
        libs = [x.name for x in E.mro(self.cls) if isinstance(x, Lib)]
        bases = E.mro(self.cls)[1:]
        for b in bases:
            if isinstance(b, PyClass):
                v = E.clsattr(b, name, self.obj)
                if v is not NotImplemented: return v
        if name == '__init__':
            o = self.obj
            def init(*a, **k):
                c = E.cells[o.id]
                if 'dict' in libs and a:
                    d = E.asdict(a[0]); E.cells[o.id] = c.with_('__dict__', DCT(newoid(), d.ent, d.rest))
                elif 'list' in libs and a:
                    s = E.seq(a[0])
                    l = a[0] if isinstance(a[0], LST) else None
                    if l is None:
                        n = cval(s.n)
                        l = LST.of([s.fn(z3.IntVal(i)) for i in range(n)]) if n is not None else LST(0, s.n, s.fn)
                    E.cells[o.id] = c.with_('__list__', LST(newoid(), l.n0, l.fn, l.tail))
                return None
            return Native(init)
        return BoundM(self.obj, name)

class FA:
    """for all integers u...: hyp => goal.  fn(*u) -> (hyp, goal); trig: [(function name, argument position or fn(app)->u tuple)]"""
    def __init__(self, nv, fn, trig=None): self.nv, self.fn, self.trig = nv, fn, trig
    def register(self, E):
        if self.trig is None:
            # find applications that carry each bound variable as an argument
            us = [unique_bound() for _ in range(self.nv)]
            h, g = self.fn(*us)
            f = z3.Implies(h, g) if not isinstance(g, FA) else h
            pats = []
            for u in us:
                best = None
                for nm, d in uf_apps(f).items():
                    if nm in ('idiv', 'imod', '/', '*/', 'int*', 'ffloor', 'fsqrt', 'powi', 'flog', 'ite!'): continue
                    for app in d.values():
                        for j in range(app.num_args()):
                            if app.arg(j).eq(u) and not any(occurs(app.arg(q), [x for x in us if not x.eq(u)]) for q in range(app.num_args())):
                                sc = (0 if '!' in nm or '.' in nm else 1, nm, j)
                                best = sc if best is None or sc < best else best
                if best is None: raise Unsupported('quantified fact without a trigger')
                pats.append(best)
            trig = [(b[1], b[2]) for b in pats]
        else: trig = self.trig
        fn = self.fn
        def inst(*apps):
            us = [(a.arg(p) if not callable(p) else p(a)) for a, (nm, p) in zip(apps, trig)]
            if any(u is None or not z3.is_int(u) for u in us): return None
            h, g = fn(*us)
            return z3.Implies(h, g)
        us2 = [z3.Int('fa!%d' % j) for j in range(self.nv)]
        try: h, g = fn(*us2); inst.sample = z3.Implies(h, g)
        except Exception: pass
        E.ctx.foralls.append(([t[0] for t in trig], inst))
