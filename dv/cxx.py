"""C++ front end: symbolic executor over clang's JSON AST of the code in /repo/riptide/cpp.

The AST is produced by clang++ from /repo's working tree on every run; nothing is transcribed by hand.
"""
import os, re, sys, json, subprocess, tempfile, shutil, hashlib
import z3
from dv.core import *
from dv.machine import *
from dv import machine

M64 = 2**64
INC = ['/opt/venv/lib/python3.12/site-packages/pybind11/include', '/usr/include/python3.12']

class AST:
    def __init__(self, repo='/repo'):
        self.repo = repo
        src = os.path.join(repo, 'riptide/cpp/python_bindings.cpp')
        tmp = tempfile.mkdtemp(prefix='dvast')
        try:
            text = open(src).read()
            incs = [l for l in text.splitlines() if re.match(r'\s*#\s*include', l)]
            body = re.sub(r'(?m)^\s*#\s*include.*$', '', text)
            # local helper headers included by the bindings are covered by namespace riptide
            wrap = os.path.join(tmp, 'wrap.cpp')
            open(wrap, 'w').write('\n'.join(incs) + '\nnamespace riptide__b {\n#line 1 "%s"\n%s\n}\n' % (src, body))
            cmd = ['clang++', '-std=c++17', '-fsyntax-only', '-I' + os.path.join(repo, 'riptide/cpp')] + ['-I' + i for i in INC] + \
                  ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=riptide', wrap]
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
            if p.returncode != 0: raise Unsupported('clang rejects the bindings: ' + p.stderr[:500])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        d = json.JSONDecoder(); i = 0; self.docs = []; s = p.stdout
        while True:
            while i < len(s) and s[i].isspace(): i += 1
            if i >= len(s): break
            if s[i] != '{':
                i = s.index('\n', i) + 1; continue
            o, i = d.raw_decode(s, i); self.docs.append(o)
        self.byid = {}; self.funcs = {}; self.records = {}; self.owner = {}
        for o in self.docs:
            if o.get('kind') == 'NamespaceDecl': self.index(o, o.get('name'))
        self.defs = {}
    def index(self, n, ns, rec=None):
        if not isinstance(n, dict): return
        k = n.get('kind'); i = n.get('id')
        if i and k and (k.endswith('Decl')): 
            if i not in self.byid or n.get('inner'): self.byid[i] = n
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
            if rec is not None: self.owner[i] = rec
            if any(isinstance(c, dict) and c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                self.funcs.setdefault((ns, n['name']), []).append(n)
        if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl'):
            rec = n
            self.records.setdefault(n.get('name'), []).append(n)
        for c in n.get('inner', []): self.index(c, ns, rec)
    def body(self, fn):
        for c in fn.get('inner', []):
            if isinstance(c, dict) and c.get('kind') == 'CompoundStmt': return c
        return None
    def params(self, fn): return [c for c in fn.get('inner', []) if isinstance(c, dict) and c.get('kind') == 'ParmVarDecl']
    def find(self, ns, name, nparams=None, rec=None, inst=None):
        """function definitions with a body"""
        out = []
        for f in self.funcs.get((ns, name), []):
            if nparams is not None and len(self.params(f)) != nparams: continue
            if is_dependent(f): continue
            if f.get('previousDecl') and False: continue
            out.append(f)
        return out

def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')
def qts(n): return n.get('type', {}).get('qualType', '')

def is_dependent(f):
    """templates themselves (not instantiations) contain dependent types"""
    st = [f]
    while st:
        n = st.pop()
        if not isinstance(n, dict): continue
        if n.get('kind') in ('CXXDependentScopeMemberExpr', 'UnresolvedLookupExpr', 'CXXUnresolvedConstructExpr', 'UnresolvedMemberExpr', 'DependentScopeDeclRefExpr'): return True
        t = qt(n)
        if t in ('<dependent type>',) or re.search(r'\bT\b', t) and not n.get('type', {}).get('desugaredQualType'): return True
        st.extend(n.get('inner', []))
    return False

def norm(t):
    t = re.sub(r'\b(const|volatile|__restrict|restrict|struct|class)\b', '', t)
    return re.sub(r'\s+', ' ', t).strip()

INTS = {'unsigned long': (64, False), 'size_t': (64, False), 'std::size_t': (64, False), 'unsigned long long': (64, False), 'uint64_t': (64, False),
        'unsigned int': (32, False), 'uint32_t': (32, False), 'int': (32, True), 'long': (64, True), 'ssize_t': (64, True), 'long long': (64, True),
        'unsigned char': (8, False), 'unsigned short': (16, False), 'short': (16, True), 'char': (8, True), 'Py_ssize_t': (64, True), 'py::ssize_t': (64, True),
        'pybind11::ssize_t': (64, True), 'int64_t': (64, True), 'int32_t': (32, True), 'std::ptrdiff_t': (64, True), 'ptrdiff_t': (64, True), 'std::uint32_t': (32, False),
        'std::size_type': (64, False), 'size_type': (64, False), 'difference_type': (64, True), 'std::uint64_t': (64, False), 'uint8_t':(8,False)}
def ctype(t):
    t = norm(t)
    if t.endswith('&'): t = norm(t.rstrip('&'))
    if t in INTS: return ('i',) + INTS[t]
    if t == 'bool' or t == '_Bool': return ('b',)
    if t == 'float': return ('f', 32)
    if t == 'double' or t == 'long double': return ('f', 64)
    if t.endswith('*'): return ('p', t[:-1].strip())
    m = re.match(r'^(.*)\[(\d*)\]$', t)
    if m: return ('a', m.group(1).strip(), m.group(2))
    return ('r', t)

def sort_of(t):
    c = ctype(t)
    return {'i': 'Int', 'b': 'Bool', 'f': 'Real'}.get(c[0])

class Cell:
    __slots__ = ('id', 'path')
    def __init__(self, id, path=()): self.id, self.path = id, path
    def field(self, f): return Cell(self.id, self.path + (f,))
class Elem:
    __slots__ = ('ptr',)
    def __init__(self, ptr): self.ptr = ptr
class Rv:      # rvalue materialised
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class FnRef:
    def __init__(self, decl): self.decl = decl
class Lambda:
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this
class BoundM:
    def __init__(self, lv, node): self.lv, self.node = lv, node

def as_bool01(x):
    c = cval(x)
    if c in (0, 1): return z3.BoolVal(bool(c))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and cval(x.arg(1)) == 1 and cval(x.arg(2)) == 0: return x.arg(0)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and cval(x.arg(1)) == 0 and cval(x.arg(2)) == 1: return simp(z3.Not(x.arg(0)))
    return None

def strip(n, kinds=('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr')):
    while n.get('kind') in kinds and n.get('inner'): n = n['inner'][0]
    return n

class Cxx(Machine):
    """executes C++ functions; self.contracts: name -> contract"""
    def __init__(self, ctx, ast, mode='real'):
        super().__init__(ctx)
        self.ast = ast
        self.mode = mode              # 'real': exact arithmetic, 'fp': IEEE rounding of scalar computations
        self.contracts = {}
        self.verifying = None
        self.verifying_top = True
        self.stack = []
        self.inlined = set(); self.used_contracts = set()
        self.trusted = set()
        self.externals = {}
        self.envs = []
        self.check_bounds = True

    @property
    def env(self): return self.envs[-1][0]
    @property
    def this(self): return self.envs[-1][1]

    # ---------------------------------------------------------------- helpers
    def fname(self): return self.stack[-1] if self.stack else '?'
    def ob(self, name, goal, kind='safety'):
        return self.ctx.oblige('%s: %s' % (self.fname(), name), goal, kind)
    def src(self, n):
        """short description of an expression node (for obligation names)"""
        n = strip(n)
        k = n.get('kind')
        try:
            if k == 'DeclRefExpr': return n['referencedDecl']['name']
            if k == 'MemberExpr': return self.src(n['inner'][0]) + '.' + n['name']
            if k in ('IntegerLiteral', 'FloatingLiteral'): return str(n.get('value'))
            if k == 'BinaryOperator' or k == 'CompoundAssignOperator': return '(%s %s %s)' % (self.src(n['inner'][0]), n['opcode'], self.src(n['inner'][1]))
            if k == 'UnaryOperator': return n['opcode'] + self.src(n['inner'][0])
            if k == 'ArraySubscriptExpr': return '%s[%s]' % (self.src(n['inner'][0]), self.src(n['inner'][1]))
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): return '%s(%s)' % (self.src(n['inner'][0]), ', '.join(self.src(x) for x in n['inner'][1:]))
            if k == 'CXXThisExpr': return 'this'
            if k in ('CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'): return '%s(%s)' % (norm(qts(n)), self.src(n['inner'][-1]))
        except Exception: pass
        return k or '?'

    aliases = None      # terms that have a name: id of the simplified term -> (term, name)
    def rnd(self, x, w, exact=False):
        return self.alias(self.rnd0(x, w, exact))
    def alias(self, x):
        if self.aliases:
            t = simp(x); e = self.aliases.get(t.get_id())
            if e is not None and e[0].eq(t): return e[1]
        return x
    def rnd0(self, x, w=64, exact=False):
        x = R(x)
        if self.mode == 'real': return x
        c = cval(simp(x))
        if c is not None:
            import struct
            f = float(c)
            if w == 32:
                f = struct.unpack('f', struct.pack('f', f))[0]
            if Fraction(f) == Fraction(c): return x
        if exact: return x
        from dv import core
        return core._rnd[w](simp(x))

    # ---------------------------------------------------------------- lvalues
    def load(self, lv, what=''):
        if isinstance(lv, Rv): return lv.v
        if isinstance(lv, Cell):
            v = self.cells[lv.id]
            for p in lv.path:
                if not isinstance(v, StructVal): raise Unsupported('field %s of %r' % (p, v))
                v = v.f[p]
            if v is UNKNOWN: raise Unsupported('read of an indeterminate variable (%s in %s)' % (what, self.fname()))
            return v
        if isinstance(lv, Elem):
            p = lv.ptr
            if not isinstance(p, Ptr): raise Unsupported('dereference of %r' % (p,))
            a = self.arrs[p.obj]
            if self.check_bounds: self.ob('read of %s is in bounds' % what, z3.And(0 <= p.off, p.off < a.n), 'bounds')
            if not self.fully_init(a) and self.check_bounds:
                self.ob('read of %s is initialised' % what, a.sel(p.off, self.ctx, ini=True), 'init')
            return a.sel(p.off, self.ctx)
        raise Unsupported('load %r' % (lv,))
    def store(self, lv, v, what=''):
        if isinstance(lv, Cell):
            self.cells[lv.id] = self.setleaf(self.cells[lv.id], lv.path, v) if lv.path else v
            return
        if isinstance(lv, Elem):
            p = lv.ptr
            if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
            a = self.arrs[p.obj]
            if self.check_bounds: self.ob('write of %s is in bounds' % what, z3.And(0 <= p.off, p.off < a.n), 'bounds')
            if a.name.startswith('const:'): self.ob('%s is writable' % what, z3.BoolVal(False), 'frame')
            if z3.is_expr(v) and v.sort() != a.sort_ if hasattr(a, 'sort_') else False: pass
            val = v if z3.is_expr(v) else (R(v) if a.sort == 'Real' else I(v))
            self.arrs[p.obj] = a.write(p.off, p.off + 1, lambda o, val=val: val)
            return
        raise Unsupported('store %r' % (lv,))

    # ---------------------------------------------------------------- conversions
    def conv(self, v, frm, to, what=''):
        f, t = ctype(frm), ctype(to)
        if not z3.is_expr(v):
            if isinstance(v, bool): v = z3.BoolVal(v)
            elif isinstance(v, int): v = I(v)
            elif isinstance(v, float): v = R(v)
            else: return v
        if t[0] == 'i':
            if z3.is_bool(v): return ite(v, I(1), I(0))
            if z3.is_real(v): return self.real_to_int(v, t, what)
            return self.wrap(v, t)
        if t[0] == 'f':
            if z3.is_bool(v): return ite(v, R(1), R(0))
            if z3.is_int(v):
                x = toreal(v)
                return self.rnd(x, t[1])
            if f[0] == 'f' and f[1] <= t[1]: return v
            return self.rnd(v, t[1])
        if t[0] == 'b':
            if z3.is_bool(v): return v
            return simp(v != 0)
        return v

    def wrap(self, v, t):
        """bring an integer into the range of type t (modular for unsigned)"""
        bits, signed = t[1], t[2]
        c = cval(v)
        lo, hi = (-(2**(bits-1)), 2**(bits-1)) if signed else (0, 2**bits)
        if c is not None:
            if lo <= c < hi: return v
            return I((c - lo) % (2**bits) + lo)
        if signed: return v
        ctx = self.ctx
        if ctx.quick(v >= 0):
            return v            # upper range: see add/mul obligations
        if ctx.quick(v < 0):
            return simp(v + 2**bits)
        if ctx.entails(v >= 0): return v
        return ite(v >= 0, v, v + 2**bits)

    def real_to_int(self, v, t, what=''):
        bits, signed = t[1], t[2]
        c = cval(simp(v))
        if c is not None:
            r = abs(c).__floor__() * (1 if c >= 0 else -1)
            return self.wrap(I(r), t)
        if not signed:
            self.ob('conversion of %s to an integer is in range' % what, z3.And(R(v) > -1, R(v) < 2**bits), 'range')
            if self.ctx.quick(R(v) >= 0): return ffloor(v)
            return ite(R(v) >= 0, ffloor(v), I(0))
        return ite(R(v) >= 0, ffloor(v), -ffloor(-R(v)))

    # ---------------------------------------------------------------- arithmetic
    def arith(self, op, a, b, t, what):
        ct = ctype(t)
        if ct[0] == 'f':
            a, b = R(a), R(b)
            if op == '+': r = a + b
            elif op == '-': r = a - b
            elif op == '*': r = a * b
            elif op == '/':
                self.ob('divisor of %s is not zero' % what, b != 0, 'definedness')
                r = a / b
            else: raise Unsupported('float op ' + op)
            return self.rnd(simp(r), ct[1])
        if ct[0] == 'i':
            if z3.is_bool(a): a = ite(a, I(1), I(0))
            if z3.is_bool(b): b = ite(b, I(1), I(0))
            bits, signed = ct[1], ct[2]
            lim = 2**bits if not signed else 2**(bits-1)
            if op in '+*':
                r = simp(a + b if op == '+' else a * b)
                if cval(r) is None and not signed:
                    # unsigned wrap-around of values that were produced by a wrapped subtraction
                    wrapped = any(cval(x) is not None and abs(cval(x)) >= 2**31 for x in subterms(r))
                    if wrapped:
                        if not self.ctx.entails(r < lim):
                            r = simp(ite(r >= lim, r - lim, r))
                    else:
                        self.no_overflow(r, lim, what)
                return r
            if op == '-':
                r = simp(a - b)
                if signed: return r
                return self.wrap(r, ct)
            if op in '/%':
                self.ob('divisor of %s is not zero' % what, b != 0, 'definedness')
                if signed and not (self.ctx.quick(a >= 0) and self.ctx.quick(b > 0)): raise Unsupported('signed division')
                return idiv(a, b) if op == '/' else imod(a, b)
            if op == '>>':
                c = cval(simp(b))
                if c is None: raise Unsupported('shift')
                return idiv(a, I(2**c))
            if op == '<<':
                c = cval(simp(b))
                if c is None: raise Unsupported('shift')
                return simp(a * 2**c)
            if op in '&|^':
                bb = [as_bool01(x) for x in (a, b)]
                if None not in bb:
                    return ite(simp({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](*bb)), I(1), I(0))
            if op == '&':
                for x, y in ((a, b), (b, a)):
                    c = cval(simp(y))
                    if c is not None and (c & (c + 1)) == 0: return imod(x, I(c + 1))
                raise Unsupported('bit-and')
        if ct[0] == 'b' or op in '&|^':
            a = a if z3.is_bool(a) else a != 0
            b = b if z3.is_bool(b) else b != 0
            return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        raise Unsupported('operator %s on %s' % (op, t))

    def no_overflow(self, r, lim, what):
        """size computations do not overflow (assumption: stated in the evidence)"""
        self.ctx.ovf = getattr(self.ctx, 'ovf', 0) + 1

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        """rvalue of expression node"""
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s in %s' % (k, self.fname()))
        return m(n)
    def ev_boolv(self, n):
        v = self.ev(n)
        if not z3.is_expr(v):
            if isinstance(v, Ptr): return z3.BoolVal(True)
            return z3.BoolVal(bool(v))
        return v if z3.is_bool(v) else simp(v != 0)

    def lv(self, n):
        """lvalue"""
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr'): return self.lv(n['inner'][0])
        if k == 'MaterializeTemporaryExpr':
            return Rv(self.ev(n['inner'][0]))
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'): return self.lv(n['inner'][0])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            r = self.lookup(d)
            if r is None: raise Unsupported('reference to %s' % d.get('name'))
            return r
        if k == 'MemberExpr':
            b = n['inner'][0]
            if n.get('isArrow'):
                p = self.ev(b)
                base = p if isinstance(p, (Cell, Elem, Rv)) else None
                if base is None: raise Unsupported('-> on %r' % (p,))
            else:
                base = self.lv(b) if b.get('valueCategory') != 'prvalue' else Rv(self.ev(b))
            if isinstance(base, Cell): 
                v = self.cells[base.id]
                for p in base.path: v = v.f[p]
                fld = v.f.get(n['name']) if isinstance(v, StructVal) else None
                if isinstance(fld, (Cell,)): return fld
                return base.field(n['name'])
            v = self.load(base)
            return Rv(v.f[n['name']])
        if k == 'ArraySubscriptExpr':
            b, i = n['inner']
            p = self.ev(b); o = self.ev(i)
            if not isinstance(p, Ptr): p, o = o, p
            if not isinstance(p, Ptr): raise Unsupported('subscript of %r' % (p,))
            return Elem(Ptr(p.obj, p.off + I(o)))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev(n['inner'][0])
            if isinstance(p, Ptr): return Elem(p)
            if isinstance(p, (Cell, Rv, Elem)): return p
            raise Unsupported('* of %r' % (p,))
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.ev(n); return self.lv(n['inner'][0])
        if k in ('CompoundAssignOperator',) or (k == 'BinaryOperator' and n.get('opcode') == '='):
            self.ev(n); return self.lv(n['inner'][0])
        if k == 'CXXOperatorCallExpr':
            op = self.src(n['inner'][0])
            base = self.lv(n['inner'][1])
            if op == 'operator[]':
                v = self.load(base); i = self.ev(n['inner'][2])
                return self.index_lv(v, i)
            if op == 'operator*':
                v = self.load(base)
                if isinstance(v, Ptr): return Elem(v)
            if op in ('operator()',):
                v = self.load(base); idx = [self.ev(x) for x in n['inner'][2:]]
                if isinstance(v, StructVal) and v.tname == 'accessor': return Elem(self.acc_ptr(v, idx))
        if k == 'ConditionalOperator':
            c = self.ev_boolv(n['inner'][0])
            return self.lv(n['inner'][1] if self.ctx.decide(c) else n['inner'][2])
        if k == 'CXXThisExpr': return self.this
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            r = self.ev(n)
            return r if isinstance(r, (Cell, Elem, Rv)) else Rv(r)
        return Rv(self.ev(n))

    def index_lv(self, v, i):
        if isinstance(v, Ptr): return Elem(Ptr(v.obj, v.off + I(i)))
        if isinstance(v, StructVal) and 'ptr' in v.f: return Elem(Ptr(v.f['ptr'].obj, v.f['ptr'].off + I(i)))
        raise Unsupported('operator[] on %r' % (v,))

    def lookup(self, d):
        i = d['id']
        for env in reversed(self.env):
            if i in env: return env[i]
        if d.get('kind') in ('FunctionDecl', 'CXXMethodDecl'): return FnRef(d)
        # constants of pybind11 (enumerators)
        if d.get('kind') == 'EnumConstantDecl':
            return Rv(self.enum_const(d))
        dd = self.ast.byid.get(i)
        if dd is not None and dd.get('kind') == 'VarDecl' and dd.get('inner'):
            return Rv(self.init_value(dd))
        return None
    def enum_const(self, d):
        if 'C_CONTIGUOUS' in d.get('name', ''): return I(1)
        raise Unsupported('enumerator %s' % d.get('name'))

    def e_DeclRefExpr(self, n):
        r = self.lv(n)
        if isinstance(r, FnRef): return r
        return self.load(r, n['referencedDecl'].get('name', ''))
    def e_MemberExpr(self, n):
        return self.load(self.lv(n), n.get('name'))
    def e_ArraySubscriptExpr(self, n): return self.load(self.lv(n), self.src(n))
    def e_ParenExpr(self, n): return self.ev(n['inner'][0])
    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr
    def e_MaterializeTemporaryExpr(self, n): return self.ev(n['inner'][0])
    def e_IntegerLiteral(self, n): return I(int(n['value']))
    def e_FloatingLiteral(self, n):
        x = float(n['value'])
        if ctype(qt(n)) == ('f', 32):
            import struct
            x = struct.unpack('f', struct.pack('f', x))[0]
        # decimal literal in real mode: the exact decimal value of the source text
        from fractions import Fraction as Fr
        if self.mode == 'real': return R(Fr(n['value']) if re.match(r'^[0-9.eE+-]+$', n['value']) else Fr(x))
        return R(x)
    def e_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n['value']))
    def e_StringLiteral(self, n): return n.get('value', '')
    def e_CXXNullPtrLiteralExpr(self, n): return None
    def e_CXXThisExpr(self, n): return self.this
    def e_CXXDefaultArgExpr(self, n): return self.ev(n['inner'][0]) if n.get('inner') else None
    def e_CXXDefaultInitExpr(self, n): return self.ev(n['inner'][0]) if n.get('inner') else UNKNOWN
    def e_ImplicitValueInitExpr(self, n):
        return self.default_value(qt(n))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def default_value(self, t):
        c = ctype(t)
        return {'i': I(0), 'b': z3.BoolVal(False), 'f': R(0)}.get(c[0], UNKNOWN)
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = norm((n.get('argType') or {}).get('qualType') or qt(n['inner'][0]))
            sz = {'float': 4, 'double': 8, 'bool': 1}.get(t)
            if sz is None and t in INTS: sz = INTS[t][0] // 8
            if sz is None: raise Unsupported('sizeof ' + t)
            return ('sizeof', t, sz) if False else I(sz)
        raise Unsupported('trait')
    def e_ImplicitCastExpr(self, n): return self.cast(n)
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_ImplicitCastExpr
    def e_CXXFunctionalCastExpr(self, n): return self.cast(n)
    def cast(self, n):
        ck = n.get('castKind'); s = n['inner'][-1]
        if ck == 'LValueToRValue':
            l = self.lv(s)
            return self.load(l, self.src(s))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'BitCast', 'ToVoid', 'BuiltinFnToFnPtr'):
            return self.ev(s)
        if ck == 'ArrayToPointerDecay':
            r = self.lv(s) if strip(s).get('kind') != 'StringLiteral' else None
            if r is None: return self.ev(s)
            v = self.load(r)
            return v
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            return self.conv(self.ev(s), qt(s), qt(n), self.src(s))
        if ck == 'PointerToBoolean': return z3.BoolVal(self.ev(s) is not None)
        if ck == 'NullToPointer': return None
        raise Unsupported('cast %s' % ck)

    def e_UnaryOperator(self, n):
        op = n['opcode']; s = n['inner'][0]
        if op in ('++', '--'):
            l = self.lv(s); v = self.load(l, self.src(s))
            d = 1 if op == '++' else -1
            if isinstance(v, Ptr): w = Ptr(v.obj, v.off + d)
            else: w = self.arith('+' if d > 0 else '-', v, I(1) if z3.is_int(v) else R(1), qt(n), self.src(n))
            self.store(l, w, self.src(s))
            return v if n.get('isPostfix') else w
        if op == '*': return self.load(self.lv(n), self.src(n))
        if op == '&':
            l = self.lv(s)
            if isinstance(l, Elem): return l.ptr
            return l
        v = self.ev(s)
        if op == '!': 
            b = v if z3.is_bool(v) else (v != 0)
            return simp(z3.Not(b))
        if op == '-':
            if z3.is_int(v) and not ctype(qt(n))[2]: return self.wrap(simp(-v), ctype(qt(n)))
            return simp(-v)
        if op == '+': return v
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']; a, b = n['inner']
        if op == '=':
            v = self.ev(b); l = self.lv(a)
            self.store(l, v, self.src(a)); return v
        if op == ',':
            self.ev(a); return self.ev(b)
        if op in ('&&', '||'):
            x = self.ev_boolv(a)
            if op == '&&':
                if not self.pure(b):
                    return self.ev_boolv(b) if self.ctx.decide(x) else z3.BoolVal(False)
                y = self.under([x], lambda: self.ev_boolv(b))
                return simp(z3.And(x, y))
            if not self.pure(b):
                return z3.BoolVal(True) if self.ctx.decide(x) else self.ev_boolv(b)
            y = self.under([z3.Not(x)], lambda: self.ev_boolv(b))
            return simp(z3.Or(x, y))
        x, y = self.ev(a), self.ev(b)
        return self.binop(op, x, y, n)
    def pure(self, n):
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            if x.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CompoundAssignOperator', 'CXXOperatorCallExpr', 'ConditionalOperator'): return False
            if x.get('kind') == 'BinaryOperator' and x.get('opcode') == '=': return False
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') in ('++', '--'): return False
            st.extend(x.get('inner', []))
        return True
    def binop(self, op, x, y, n):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == '+':
                p, o = (x, y) if isinstance(x, Ptr) else (y, x)
                return Ptr(p.obj, p.off + I(o))
            if op == '-':
                if isinstance(y, Ptr):
                    if x.obj != y.obj: raise Unsupported('pointer difference')
                    return simp(x.off - y.off)
                return Ptr(x.obj, x.off - I(y))
            if op in ('<', '>', '<=', '>=', '==', '!=') and isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj != y.obj:
                    if op == '==': return z3.BoolVal(False)
                    if op == '!=': return z3.BoolVal(True)
                    raise Unsupported('pointer comparison')
                x, y = x.off, y.off
            else:
                if op in ('==', '!=') and (x is None or y is None): return z3.BoolVal(op == '!=')
                raise Unsupported('pointer op ' + op)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if not z3.is_expr(x) or not z3.is_expr(y): raise Unsupported('comparison of %r and %r' % (x, y))
            if z3.is_bool(x) and not z3.is_bool(y): x = ite(x, I(1), I(0))
            if z3.is_bool(y) and not z3.is_bool(x): y = ite(y, I(1), I(0))
            if x.sort() != y.sort(): x, y = R(x), R(y)
            return simp({'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]())
        return self.arith(op, x, y, qt(n), self.src(n))
    def e_CompoundAssignOperator(self, n):
        a, b = n['inner']; op = n['opcode'][:-1]
        y = self.ev(b); l = self.lv(a); x = self.load(l, self.src(a))
        if isinstance(x, Ptr): r = Ptr(x.obj, x.off + I(y) if op == '+' else x.off - I(y))
        else:
            ct = (n.get('computeResultType') or {}).get('qualType') or qt(n)
            ct = (n.get('computeResultType') or {}).get('desugaredQualType') or ct
            x2 = self.conv(x, qt(a), (n.get('computeLHSType') or {}).get('desugaredQualType') or (n.get('computeLHSType') or {}).get('qualType') or qt(a))
            r = self.arith(op, x2, y, ct, self.src(n))
            r = self.conv(r, ct, qt(a), self.src(n))
        self.store(l, r, self.src(a))
        return r
    def e_ConditionalOperator(self, n):
        c = self.ev_boolv(n['inner'][0])
        if self.pure(n['inner'][1]) and self.pure(n['inner'][2]):
            q = simp(c)
            if not (z3.is_true(q) or z3.is_false(q)) and not self.ctx.quick(q) and not self.ctx.quick(z3.Not(q)):
                a = self.under([c], lambda: self.ev(n['inner'][1])); b = self.under([z3.Not(c)], lambda: self.ev(n['inner'][2]))
                if z3.is_expr(a) and z3.is_expr(b): return ite(c, a, b)
        return self.ev(n['inner'][1] if self.ctx.decide(c) else n['inner'][2])

    def e_LambdaExpr(self, n):
        return Lambda(n, list(self.env), self.this)
    def e_InitListExpr(self, n): return [self.ev(x) for x in n.get('inner', [])]
    def e_CXXStdInitializerListExpr(self, n):
        v = self.ev(n['inner'][0])
        return v
    def e_CXXNewExpr(self, n):
        if not n.get('isArray'): raise Unsupported('new')
        sz = None
        for c in n['inner']:
            v = self.ev(c)
            if z3.is_expr(v): sz = v; break
        t = ctype(qt(n))[1]
        s = sort_of(t)
        zero = any(c.get('kind') in ('InitListExpr', 'ImplicitValueInitExpr') for c in n['inner'])
        if s is None: raise Unsupported('new ' + t)
        return self.alloc(sz, s, 'heap', zero)
    def alloc(self, size, s, name, zero=False):
        i = self.sym_arr(name, size, s, ini=zero)
        if zero:
            z = {'Real': R(0), 'Int': I(0), 'Bool': z3.BoolVal(False)}[s]
            self.arrs[i] = base_arr(size, s, lambda o: z, name=name)
        self.ctx.assume(I(size) >= 0)
        return Ptr(i, 0)
    def e_CXXThrowExpr(self, n):
        t = 'exception'
        for c in n.get('inner', []):
            t = norm(qt(strip(c, ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups')))) or t
            break
        raise CThrow(re.sub(r'^.*::', '', t))

    # ---------------------------------------------------------------- constructors
    def e_CXXConstructExpr(self, n):
        t = norm(qt(n)); args = n.get('inner', [])
        ts = norm(qts(n))
        if 'std::vector<' in t or t.startswith('vector<'):
            et = re.search(r'vector<([^,>]*)', t).group(1)
            a = [self.ev(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            if len(a) == 1 and z3.is_expr(a[0]):
                p = self.alloc(a[0], sort_of(et) or 'Real', 'vector', True)
                return StructVal('vector', {'ptr': p, 'size': a[0]})
            if len(a) == 2 and z3.is_expr(a[0]) and z3.is_expr(a[1]):
                p = self.alloc(a[0], sort_of(et) or 'Real', 'vector', True)
                v = a[1]; self.arrs[p.obj] = base_arr(a[0], sort_of(et), lambda o: v, name='vector')
                return StructVal('vector', {'ptr': p, 'size': a[0]})
            if len(a) == 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
                sz = simp(a[1].off - a[0].off)
                p = self.alloc(sz, sort_of(et) or 'Real', 'vector', False)
                self.copy_region(a[0], p, sz, 'vector copy')
                return StructVal('vector', {'ptr': p, 'size': sz})
            if len(a) == 1 and isinstance(a[0], StructVal) and a[0].tname == 'vector':
                sz = a[0].f['size']; p = self.alloc(sz, self.arrs[a[0].f['ptr'].obj].sort, 'vector', False)
                self.copy_region(a[0].f['ptr'], p, sz, 'vector copy')
                return StructVal('vector', {'ptr': p, 'size': sz})
            raise Unsupported('vector constructor')
        if 'unique_ptr<' in t:
            a = [self.ev(x) for x in args]
            return a[0]
        if 'basic_string' in t or t == 'std::string': return self.ev(args[0]) if args else ''
        if 'array_t<' in t or 'tuple<' in t or 'invalid_argument' in t or 'initializer_list' in t or 'unchecked_' in t or 'error' in t:
            vals = [self.ev(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            if 'array_t<' in t and vals and isinstance(vals[0], list): return self.make_array(t, vals[0])
            return vals[0] if vals else None
        # user record
        rec = self.find_record(t)
        if rec is None:
            if len(args) == 1: return self.ev(args[0])
            raise Unsupported('construct ' + t)
        vals = [self.ev(x) for x in args if True]
        if len(vals) == 1 and isinstance(vals[0], StructVal) and vals[0].tname == self.recname(rec):
            return self.copy_struct(vals[0])
        return self.construct(rec, vals)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def copy_struct(self, v):
        return v
    def recname(self, rec):
        args = [norm(c.get('type', {}).get('qualType', '')) if True else '' for c in rec.get('inner', []) if c.get('kind') == 'TemplateArgument']
        a2 = []
        for c in rec.get('inner', []):
            if c.get('kind') == 'TemplateArgument': a2.append(c.get('type', {}).get('qualType', '').strip())
        return rec['name'] + ('<%s>' % ','.join(a2) if a2 else '')
    def find_record(self, t):
        t = re.sub(r'\b(riptide|riptide__b)::', '', t)
        t0 = t
        m = re.match(r'^(\w+)(<(.*)>)?$', t0)
        if not m: return None
        name, targ = m.group(1), (m.group(3) or '').strip()
        if name in ('Block',): name, targ = 'BlockTemplate', 'float'
        if name in ('ConstBlock',): name, targ = 'BlockTemplate', 'const float'
        cands = [r for r in self.ast.records.get(name, []) if any(c.get('kind') in ('FieldDecl',) for c in r.get('inner', []))]
        if not cands: return None
        if name == 'BlockTemplate' or any(r['kind'] == 'ClassTemplateSpecializationDecl' for r in cands):
            sp = [r for r in cands if r['kind'] == 'ClassTemplateSpecializationDecl']
            ex = [r for r in sp if norm(self.recname(r)) == norm('%s<%s>' % (name, targ)) and self.recname(r).count('const') == ('const' in targ)]
            return (ex or sp or cands)[0]
        return cands[0]
    def fields(self, rec): return [c for c in rec['inner'] if c.get('kind') == 'FieldDecl']
    def construct(self, rec, vals):
        ctor = None
        for c in rec['inner']:
            if c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit') and len(self.ast.params(c)) == len(vals) and self.ast.body(c): ctor = c
        if ctor is None:
            # constructor definitions may be instantiated elsewhere; find by member name
            for c in rec['inner']:
                if c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit') and len(self.ast.params(c)) == len(vals): ctor = c
        fl = self.fields(rec)
        cell = self.new(StructVal(self.recname(rec), {f['name']: UNKNOWN for f in fl}))
        this = Cell(cell)
        if ctor is None:
            for f, v in zip(fl, vals): self.store(this.field(f['name']), v)
            return self.cells[cell]
        env = {}
        for p, v in zip(self.ast.params(ctor), vals):
            env[p['id']] = Cell(self.new(v))
        self.envs.append(([env], this)); self.stack.append(rec['name'] + '::' + rec['name'])
        try:
            done = set()
            for c in ctor['inner']:
                if c.get('kind') == 'CXXCtorInitializer':
                    nm = (c.get('anyInit') or {}).get('name')
                    if nm:
                        v = self.ev(c['inner'][0]); self.store(this.field(nm), v); done.add(nm)
            for f in fl:
                if f['name'] not in done and f.get('hasInClassInitializer') and f.get('inner'):
                    self.store(this.field(f['name']), self.ev(f['inner'][0]))
            b = self.ast.body(ctor)
            if b is not None:
                try: self.stmt(b)
                except CReturn: pass
        finally:
            self.envs.pop(); self.stack.pop()
        return self.cells[cell]

    # ---------------------------------------------------------------- calls
    def callee(self, n):
        f = strip(n['inner'][0])
        return f
    def e_CallExpr(self, n):
        f = self.callee(n)
        args = n['inner'][1:]
        if f['kind'] == 'DeclRefExpr':
            d = f['referencedDecl']; name = d['name']
            if d['id'] in self.ast.byid and (self.ast.body(self.ast.byid[d['id']]) is not None or self.resolve(d) is not None):
                decl = self.ast.byid[d['id']]
                if self.ast.body(decl) is None: decl = self.resolve(d)
                return self.call(decl, args, n)
            r = self.resolve(d)
            if r is not None: return self.call(r, args, n)
            lv = None
            for env in reversed(self.env):
                if d['id'] in env: lv = env[d['id']]
            if lv is not None:
                fv = self.load(lv)
                if isinstance(fv, Lambda): return self.call_lambda(fv, [self.ev(a) for a in args])
            return self.builtin(name, args, n)
        v = self.ev(n['inner'][0])
        if isinstance(v, Lambda): return self.call_lambda(v, [self.ev(a) for a in args])
        raise Unsupported('call of %s' % f['kind'])
    def resolve(self, d):
        """definition with a body for a declaration id that has none in the dump"""
        dd = self.ast.byid.get(d['id'])
        if dd is None: return None
        if self.ast.body(dd): return dd
        for (ns, nm), fs in self.ast.funcs.items():
            if nm == d['name']:
                for f in fs:
                    if f.get('previousDecl') == d['id'] or (f.get('type', {}).get('qualType') == dd.get('type', {}).get('qualType') and not is_dependent(f)): return f
        return None
    def call_lambda(self, lam, vals):
        body = None; params = []
        for c in lam.node['inner']:
            if c.get('kind') == 'CompoundStmt': body = c
            if c.get('kind') == 'CXXRecordDecl':
                for m in c['inner']:
                    if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                        params = self.ast.params(m)
                        body2 = self.ast.body(m)
        env = {}
        for p, v in zip(params, vals):
            env[p['id']] = Cell(self.new(v))
        self.envs.append((lam.env + [env], lam.this)); self.stack.append(self.fname())
        try:
            self.stmt(body2 or body)
            return None
        except CReturn as r: return r.v
        finally:
            self.envs.pop(); self.stack.pop()

    def key_of(self, decl):
        nm = decl['name']
        rec = self.ast.owner.get(decl['id'])
        if rec is not None: nm = rec['name'] + '::' + nm
        return '%s/%d' % (nm, len(self.ast.params(decl)))
    def ns_of(self, decl):
        for (ns, nm), fs in self.ast.funcs.items():
            if nm == decl['name'] and any(f is decl or f['id'] == decl['id'] for f in fs): return ns
        return 'riptide'
    def call(self, decl, argnodes, n, this=None):
        params = self.ast.params(decl)
        vals = []
        for p, a in zip(params, argnodes):
            if '&' in qt(p):
                l = self.lv(a)
                vals.append(l)
            else: vals.append(self.ev(a))
        for p in params[len(argnodes):]:
            if p.get('inner'): vals.append(self.ev(p['inner'][-1]))
            else: raise Unsupported('missing argument')
        return self.call_vals(decl, vals, this)
    def call_vals(self, decl, vals, this=None):
        key = self.key_of(decl)
        if self.ns_of(decl) == 'riptide__b': key = 'b:' + key
        c = self.contracts.get(key)
        if c is not None and not (self.verifying == key and self.verifying_top):
            self.used_contracts.add(key)
            return c.apply(self, vals, this)
        top = self.verifying_top
        if self.verifying == key: self.verifying_top = False
        if any(s == key for s in self.callkeys) and len([s for s in self.callkeys if s == key]) > 3:
            raise Unsupported('recursion of %s without a contract' % key)
        self.inlined.add(key)
        return self.run_body(decl, vals, this, key)
    callkeys = ()
    def run_body(self, decl, vals, this=None, key=None):
        env = {}
        for p, v in zip(self.ast.params(decl), vals):
            if isinstance(v, (Cell, Elem)): env[p['id']] = v
            elif isinstance(v, Rv): env[p['id']] = Cell(self.new(v.v))
            else:
                env[p['id']] = Cell(self.new(v))
        self.envs.append(([env], this)); self.stack.append(decl['name'])
        ck = self.callkeys; self.callkeys = tuple(ck) + (key,)
        if len(self.callkeys) > 40: raise Unsupported('call depth')
        try:
            self.stmt(self.ast.body(decl))
            return None
        except CReturn as r: return r.v
        finally:
            self.envs.pop(); self.stack.pop(); self.callkeys = ck

    def e_CXXMemberCallExpr(self, n):
        me = strip(n['inner'][0], ('ParenExpr',))
        args = n['inner'][1:]
        base = me['inner'][0]
        name = me['name']
        if me.get('isArrow'): obj = self.ev(base)
        else: obj = self.lv(base) if base.get('valueCategory') != 'prvalue' else Rv(self.ev(base))
        if isinstance(obj, FnRef): raise Unsupported('member of function')
        v = None
        mid = me.get('referencedMemberDecl')
        dd = self.ast.byid.get(mid)
        if dd is not None and self.ast.owner.get(mid) is not None:
            if self.ast.body(dd) is None:
                for (ns, nm), fs in self.ast.funcs.items():
                    if nm == name:
                        for f in fs:
                            if self.ast.owner.get(f['id']) is self.ast.owner.get(mid) and len(self.ast.params(f)) == len(args): dd = f
            if self.ast.body(dd) is not None:
                return self.call(dd, args, n, this=obj)
        v = self.load(obj) if isinstance(obj, (Cell, Elem, Rv)) else obj
        if name in ('unchecked', 'mutable_unchecked') and isinstance(v, StructVal) and v.tname == 'pyarray':
            mm = re.search(r'unchecked(?:_mutable)?_reference<[^,>]*,\s*(-?\d+)', qt(n) + ' ' + qts(n))
            if not mm: raise Unsupported('unchecked dimension in %s' % qt(n))
            nd = int(mm.group(1))
            if not self.ctx.decide(v.f['ndim'] == nd): raise CThrow('domain_error')
            d = dict(v.f); d['ndim'] = I(nd)
            if nd == 1: d['s1'] = I(1)
            return StructVal('accessor', d)
        return self.method(v, name, args, n, obj)

    def e_CXXOperatorCallExpr(self, n):
        op = self.src(n['inner'][0])
        if op == 'operator[]' or op == 'operator*': return self.load(self.lv(n), self.src(n))
        if op == 'operator()':
            v = self.load(self.lv(n['inner'][1]))
            if isinstance(v, Lambda): return self.call_lambda(v, [self.ev(a) for a in n['inner'][2:]])
            if isinstance(v, StructVal) and v.tname == 'accessor': return self.load(self.lv(n), self.src(n))
        if op == 'operator=':
            v = self.ev(n['inner'][2]); self.store(self.lv(n['inner'][1]), v); return v
        a = [self.ev(x) for x in n['inner'][1:]]
        if op in ('operator+', 'operator-', 'operator!=', 'operator==', 'operator<') and len(a) == 2:
            return self.binop(op[8:], a[0], a[1], n)
        if op in ('operator++',):
            l = self.lv(n['inner'][1]); v = self.load(l)
            if isinstance(v, Ptr): self.store(l, Ptr(v.obj, v.off + 1)); return self.load(l)
        if op == 'operator-' and not all(z3.is_expr(x) for x in a): return UNKNOWN
        raise Unsupported('operator call %s' % op)

    # -- methods of library classes
    def method(self, v, name, args, n, obj):
        if isinstance(v, StructVal) and v.tname == 'vector':
            if name in ('begin', 'data', 'cbegin'): return v.f['ptr']
            if name in ('end', 'cend'): return Ptr(v.f['ptr'].obj, v.f['ptr'].off + v.f['size'])
            if name == 'size': return v.f['size']
            if name == 'at':
                i = self.ev(args[0])
                if not self.ctx.decide(z3.And(0 <= i, i < v.f['size'])): raise CThrow('out_of_range')
                return Elem(Ptr(v.f['ptr'].obj, v.f['ptr'].off + i))
            if name == 'empty': return simp(v.f['size'] == 0)
            if name == 'back': return Elem(Ptr(v.f['ptr'].obj, v.f['ptr'].off + v.f['size'] - 1))
            if name == 'front': return Elem(v.f['ptr'])
        if isinstance(v, Ptr) and name == 'get': return v
        if isinstance(v, StructVal) and v.tname in ('pyarray', 'accessor'): return self.py_method(v, name, [self.ev(a) for a in args])
        if isinstance(v, list) and name == 'size': return I(len(v))
        if name == 'count': return self.ctx.fresh('clock', 'Real')
        raise Unsupported('method %s of %r' % (name, v))

    # -- pybind11 arrays (trusted contract of pybind11::array_t)
    def new_pyarray(self, name, ndim=None, sort='Real', contig=None, const=True):
        c = self.ctx
        nd = c.fresh(name + '_ndim', 'Int')
        s0, s1 = c.fresh(name + '_s0', 'Int'), c.fresh(name + '_s1', 'Int')
        c.assume(z3.And(nd >= 0, s0 >= 0, s1 >= 0))
        size = c.fresh(name + '_size', 'Int')
        c.assume(size >= 0)
        c.assume(z3.Implies(nd == 1, size == s0)); c.assume(z3.Implies(nd == 2, size == s0 * s1))
        cg = c.fresh(name + '_contig', 'Bool')
        n = z3.If(cg, size, z3.If(size > 0, I(1), I(0)))
        i = self.sym_arr(name, n, sort)
        return StructVal('pyarray', {'ndim': nd, 's0': s0, 's1': s1, 'size': size, 'contig': cg, 'ptr': Ptr(i, 0)})
    def make_array(self, t, shape):
        et = re.search(r'array_t<([^,>]*)', t).group(1)
        shape = [I(x) for x in shape]
        size = shape[0]
        for x in shape[1:]: size = size * x
        size = simp(size)
        p = self.alloc(size, sort_of(et), 'result', False)
        d = {'ndim': I(len(shape)), 's0': shape[0], 's1': shape[1] if len(shape) > 1 else I(1), 'size': size, 'contig': z3.BoolVal(True), 'ptr': p}
        return StructVal('pyarray', d)
    def acc_ptr(self, v, idx):
        p = v.f['ptr']; off = idx[0] if idx else I(0)
        if len(idx) == 2: off = idx[0] * v.f['s1'] + idx[1]
        return Ptr(p.obj, p.off + off)
    def py_method(self, v, name, args):
        c = self.ctx
        if name in ('unchecked', 'mutable_unchecked'):
            raise Unsupported('unchecked without dimension')
        if name == 'size':
            return v.f['size']
        if name == 'ndim': return v.f['ndim']
        if name == 'shape':
            i = cval(args[0]) if args else None
            if i == 0: return v.f['s0']
            if i == 1: return v.f['s1']
            raise Unsupported('shape')
        if name == 'data' or name == 'mutable_data':
            if v.tname == 'accessor': return self.acc_ptr(v, args)
            # pybind11 checks the index of array_t::(mutable_)data and raises IndexError
            nd = len(args)
            ok = []
            if nd >= 1: ok.append(z3.And(0 <= args[0], args[0] < v.f['s0']))
            if nd >= 2: ok.append(z3.And(0 <= args[1], args[1] < v.f['s1']))
            if nd > 0:
                ok.append(v.f['ndim'] >= nd)
                if cval(simp(v.f['ndim'])) == 2 and nd == 1: ok.append(v.f['s1'] >= 0)
                if not c.decide(conj(ok)): raise CThrow('index_error')
            return self.acc_ptr(v, args) if nd < 2 else self.acc_ptr(v, args)
        if name == 'flags': return ite(v.f['contig'], I(1), I(0))
        if name == 'itemsize': return I(4)
        if name == 'nbytes': return v.f['size'] * 4
        raise Unsupported('array method ' + name)

    # -- free library functions
    def builtin(self, name, args, n):
        f = getattr(self, 'b_' + re.sub(r'^.*::', '', name), None)
        if f is None: raise Unsupported('call of external function %s' % name)
        self.trusted.add('std::' + name if not name.startswith('make_') else name)
        return f(args, n)
    def b_floor(self, args, n): return self.rnd(toreal(ffloor(self.ev(args[0]))), 64, exact=True)
    def b_ceil(self, args, n): return self.rnd(toreal(fceil(self.ev(args[0]))), 64, exact=True)
    b_floorf = b_floor; b_ceilf = b_ceil
    def b_round(self, args, n):
        x = R(self.ev(args[0])); return toreal(ite(x >= 0, ffloor(x + R(Fraction(1, 2))), -ffloor(-x + R(Fraction(1, 2)))))
    b_lround = b_round
    def b_trunc(self, args, n):
        x = R(self.ev(args[0])); return toreal(ite(x >= 0, ffloor(x), -ffloor(-x)))
    def b_sqrt(self, args, n):
        x = R(self.ev(args[0]))
        self.ob('argument of %s is not negative' % self.src(n), x >= 0, 'definedness')
        w = ctype(qt(n))[1] if ctype(qt(n))[0] == 'f' else 64
        return self.rnd(fsqrt(simp(x)), w)
    b_sqrtf = b_sqrt
    def b_log(self, args, n):
        from dv import core
        x = R(self.ev(args[0]))
        self.ob('argument of %s is positive' % self.src(n), x > 0, 'definedness')
        return self.rnd(core._log(simp(x)), 64)
    def b_pow(self, args, n):
        x, y = R(self.ev(args[0])), self.ev(args[1])
        if z3.is_real(y):
            c = cval(simp(y))
            if c is not None and Fraction(c).denominator == 1 and c >= 0: y = I(int(c))
            elif z3.is_app(y) and y.decl().kind() == z3.Z3_OP_TO_REAL: y = y.arg(0)
            else: raise Unsupported('pow')
        return self.rnd(powi(simp(x), y), 64)
    def b_fabs(self, args, n):
        x = self.ev(args[0]); return ite(x >= 0, x, -x)
    b_abs = b_fabs
    def _list(self, v): return v
    def b_min(self, args, n): return self.minmax(args, n, zmin)
    def b_max(self, args, n): return self.minmax(args, n, zmax)
    def minmax(self, args, n, f):
        if len(args) == 1:
            vals = self.ev(args[0])
            if not isinstance(vals, list): raise Unsupported('min of %r' % (vals,))
        else: vals = [self.load(self.lv(a), self.src(a)) if True else None for a in args[:2]]
        r = vals[0]
        for x in vals[1:]:
            if x.sort() != r.sort(): x, r = R(x), R(r)
            r = f(r, x)
        return self.alias(simp(r))
    def b_fmin(self, args, n): return zmin(*[R(self.ev(a)) for a in args])
    def b_fmax(self, args, n): return zmax(*[R(self.ev(a)) for a in args])
    def b_swap(self, args, n):
        a, b = self.lv(args[0]), self.lv(args[1])
        x, y = self.load(a, self.src(args[0])), self.load(b, self.src(args[1]))
        self.store(a, y, self.src(args[0])); self.store(b, x, self.src(args[1]))
    def copy_region(self, src, dst, cnt, what):
        """dst[0..cnt) = src[0..cnt)"""
        ctx = self.ctx
        if not isinstance(src, Ptr) or not isinstance(dst, Ptr): raise Unsupported('copy of %r' % (src,))
        a, b = self.arrs[src.obj], self.arrs[dst.obj]
        if self.check_bounds:
            self.ob('%s: source range is in bounds' % what, z3.Implies(cnt > 0, z3.And(0 <= src.off, src.off + cnt <= a.n)), 'bounds')
            self.ob('%s: target range is in bounds' % what, z3.Implies(cnt > 0, z3.And(0 <= dst.off, dst.off + cnt <= b.n)), 'bounds')
        if src.obj == dst.obj: self.ob('%s: ranges do not overlap' % what, z3.Or(src.off + cnt <= dst.off, dst.off + cnt <= src.off), 'bounds')
        d = simp(src.off - dst.off)
        self.arrs[dst.obj] = b.write(dst.off, dst.off + cnt, lambda o: a.sel(simp(o + d), ctx), None if self.fully_init(a) else (lambda o: a.sel(simp(o + d), ctx, ini=True)))
    def elems(self, n_bytes, p, node):
        """number of elements for a byte count"""
        a = self.arrs[p.obj]
        t = z3.simplify(n_bytes, som=True)
        # element width from the pointer type at the call
        w = self.elem_width(node)
        q = simp(idiv(t, I(w)))
        c = _factor_const(t, w)
        return c if c is not None else q
    def elem_width(self, node):
        x = node
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and x.get('castKind') in ('BitCast', 'NoOp', None): x = x['inner'][0]
        t = ctype(qt(x))
        if t[0] == 'p':
            e = norm(t[1])
            if e == 'float': return 4
            if e == 'double': return 8
            if e in INTS: return INTS[e][0] // 8
        raise Unsupported('element width')
    def b_memcpy(self, args, n):
        d, s = self.ev(args[0]), self.ev(args[1]); nb = self.ev(args[2])
        cnt = self.elems(nb, d, args[0])
        if self.elem_width(args[0]) != self.elem_width(args[1]): raise Unsupported('memcpy of different types')
        self.copy_region(s, d, cnt, self.src(n)); return d
    b_memmove = b_memcpy
    def b_memset(self, args, n):
        d = self.ev(args[0]); v = self.ev(args[1]); cnt = self.elems(self.ev(args[2]), d, args[0])
        if cval(simp(v)) != 0: raise Unsupported('memset')
        self.fill(d, cnt, None, self.src(n))
    def fill(self, d, cnt, v, what):
        a = self.arrs[d.obj]
        if self.check_bounds: self.ob('%s: target range is in bounds' % what, z3.Implies(cnt > 0, z3.And(0 <= d.off, d.off + cnt <= a.n)), 'bounds')
        z = v if v is not None else {'Real': R(0), 'Int': I(0), 'Bool': z3.BoolVal(False)}[a.sort]
        self.arrs[d.obj] = a.write(d.off, d.off + cnt, lambda o: z)
    def b_copy(self, args, n):
        a, b, d = [self.ev(x) for x in args]
        cnt = simp(b.off - a.off)
        self.copy_region(a, d, cnt, self.src(n)); return Ptr(d.obj, d.off + cnt)
    def b_copy_n(self, args, n):
        a, cnt, d = [self.ev(x) for x in args]
        self.copy_region(a, d, cnt, self.src(n)); return Ptr(d.obj, d.off + cnt)
    def b_fill(self, args, n):
        a, b, v = [self.ev(x) for x in args[:2]] + [self.load(self.lv(args[2]))]
        self.fill(a, simp(b.off - a.off), v, self.src(n))
    def b_accumulate(self, args, n):
        a, b, v = [self.ev(x) for x in args[:3]]
        arr = self.arrs[a.obj]
        if self.check_bounds: self.ob('%s: range is in bounds' % self.src(n), z3.Implies(b.off > a.off, z3.And(0 <= a.off, b.off <= arr.n)), 'bounds')
        return v + self.sum(lambda i: arr.sel(i, self.ctx), a.off, b.off, v.sort())
    def forall_fact(self, arr, lo, hi, pred, companion=None):
        """forall lo<=i<hi: pred(arr[i], i), triggered by reads of arr's base symbols"""
        u = unique_bound()
        t = arr.sel(u)
        decls = [(nm, d) for nm, d in uf_apps(t).items()]
        out = []
        for nm, d in decls:
            for app in d.values():
                for j in range(app.num_args()):
                    a = app.arg(j)
                    if z3.is_int(a) and occurs(a, [u]):
                        l = lin_in(a, u)
                        if l is None or l[1] != 1 or occurs(l[0], [u]): continue
                        def mk(ap, j=j, c0=l[0]):
                            i = simp(ap.arg(j) - c0)
                            return z3.Implies(z3.And(lo <= i, i < hi), pred(arr.sel(i), i))
                        smp = pred(arr.sel(u), u)
                        self.ctx.forall([nm], mk, sample=smp)
                        out.append(nm)
        return out
    def b_max_element(self, args, n): return self.extremum(args, n, 1)
    def b_min_element(self, args, n): return self.extremum(args, n, -1)
    def extremum(self, args, n, sg):
        a, b = self.ev(args[0]), self.ev(args[1])
        arr = self.arrs[a.obj]; ctx = self.ctx
        if self.check_bounds: self.ob('%s: range is in bounds' % self.src(n), z3.And(a.off <= b.off, z3.Implies(b.off > a.off, z3.And(0 <= a.off, b.off <= arr.n))), 'bounds')
        w = ctx.fresh('imax', 'Int')
        ctx.assume(z3.And(a.off <= w, w <= b.off)); ctx.assume(z3.Implies(a.off < b.off, w < b.off))
        mv = arr.sel(w)
        if sg > 0: self.forall_fact(arr, a.off, b.off, lambda x, i: z3.And(x <= mv))
        else: self.forall_fact(arr, a.off, b.off, lambda x, i: x >= mv)
        return Ptr(a.obj, w)
    def b_all_of(self, args, n): return self.quant(args, n, 'all')
    def b_any_of(self, args, n): return self.quant(args, n, 'any')
    def b_none_of(self, args, n): return self.quant(args, n, 'none')
    def quant(self, args, n, kind):
        a, b = self.ev(args[0]), self.ev(args[1]); lam = self.ev(args[2])
        arr = self.arrs[a.obj]; ctx = self.ctx
        if not isinstance(lam, Lambda): raise Unsupported('all_of predicate')
        if self.check_bounds: self.ob('%s: range is in bounds' % self.src(n), z3.And(a.off <= b.off, z3.Implies(b.off > a.off, z3.And(0 <= a.off, b.off <= arr.n))), 'bounds')
        def P(x):
            r = self.call_lambda(lam, [x])
            r = r if z3.is_bool(r) else (r != 0)
            return z3.Not(r) if kind in ('any', 'none') else r
        u = unique_bound()
        tmpl = P(arr.sel(u))
        res = ctx.fresh('all', 'Bool')
        w = ctx.fresh('wit', 'Int')
        ctx.assume(z3.Implies(z3.Not(res), z3.And(a.off <= w, w < b.off, z3.Not(subst(tmpl, [(u, w)])))))
        self.forall_fact(arr, a.off, b.off, lambda x, i: z3.Implies(res, subst(tmpl, [(u, i)])))
        return z3.Not(res) if kind == 'any' else res
    def b_make_tuple(self, args, n): return tuple(self.load(self.lv(a)) for a in args)
    def b_move(self, args, n): return self.load(self.lv(args[0]))
    b_forward = b_move
    def b_now(self, args, n): return self.ctx.fresh('clock', 'Real')
    def b_make_unique(self, args, n):
        m = re.search(r'unique_ptr<([a-z ]+)\[\]', qt(n))
        if not m: raise Unsupported('make_unique')
        return self.alloc(self.ev(args[0]), sort_of(m.group(1)), 'heap', True)

    # ---------------------------------------------------------------- statements
    def stmt(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(n)
        self.ev(n)
    def s_CompoundStmt(self, n):
        self.env.append({})
        try:
            for c in n.get('inner', []): self.stmt(c)
        finally: self.env.pop()
    def s_NullStmt(self, n): pass
    def s_DeclStmt(self, n):
        for c in n['inner']:
            if c['kind'] == 'VarDecl': self.vardecl(c)
            elif c['kind'] in ('StaticAssertDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl'): pass
            else: raise Unsupported('declaration ' + c['kind'])
    def init_value(self, c):
        inner = [x for x in c.get('inner', []) if isinstance(x, dict) and not x.get('kind', '').endswith('Attr')]
        return self.ev(inner[-1])
    def vardecl(self, c):
        inner = [x for x in c.get('inner', []) if isinstance(x, dict) and not x.get('kind', '').endswith('Attr')]
        t = qt(c)
        if '&' in t and inner:
            l = self.lv(inner[-1])
            self.env[-1][c['id']] = l if isinstance(l, (Cell, Elem)) else Cell(self.new(l.v))
            return
        ct = ctype(t)
        if ct[0] == 'a':
            if not ct[2]: 
                raise Unsupported('variable length array')
            i = self.alloc(I(int(ct[2])), sort_of(ct[1]), c['name'], False)
            self.env[-1][c['id']] = Cell(self.new(i)); 
            if inner:
                vs = self.ev(inner[-1])
                if isinstance(vs, list):
                    for j, v in enumerate(vs): self.store(Elem(Ptr(i.obj, j)), v)
            return
        v = UNKNOWN
        if c.get('init') and inner: v = self.ev(inner[-1])
        elif inner and c.get('init') is None and inner[-1].get('kind') not in ('FullComment',): v = self.ev(inner[-1])
        if isinstance(v, (Cell, Elem, Rv)) and ct[0] != 'p': v = self.load(v)
        self.env[-1][c['id']] = Cell(self.new(v))
    def s_IfStmt(self, n):
        inner = [x for x in n['inner'] if isinstance(x, dict) and x.get('kind')]
        if n.get('hasInit') or n.get('hasVar'):
            self.env.append({})
            try:
                self.stmt(inner[0]); return self._if(inner[1:])
            finally: self.env.pop()
        return self._if(inner)
    def _if(self, inner):
        c = self.ev_boolv(inner[0])
        if self.ctx.decide(c): self.stmt(inner[1])
        elif len(inner) > 2: self.stmt(inner[2])
    def s_ReturnStmt(self, n):
        inner = n.get('inner', [])
        v = self.ev(inner[0]) if inner else None
        raise CReturn(v)
    def s_BreakStmt(self, n): raise CBreak()
    def s_ContinueStmt(self, n): raise CContinue()
    def s_ForStmt(self, n):
        init, var, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        self.env.append({})
        try:
            if init.get('kind'): self.stmt(init)
            self._loop(cond if cond.get('kind') else None, body, inc if inc.get('kind') else None, self.fname())
        finally: self.env.pop()
    def s_WhileStmt(self, n):
        inner = [x for x in n['inner'] if x.get('kind')]
        if len(inner) != 2: raise Unsupported('while with declaration')
        self._loop(inner[0], inner[1], None, self.fname())
    def s_DoStmt(self, n):
        body, cond = n['inner'][:2]
        try:
            self.env.append({}); self.stmt(body)
        except CContinue: pass
        except CBreak: return
        finally: self.env.pop()
        self._loop(cond, body, None, self.fname())
    def _loop(self, cond, body, inc, name):
        depth = len(self.env); nst = len(self.stack); nen = len(self.envs)
        def C(): return self.ev_boolv(cond) if cond is not None else z3.BoolVal(True)
        def B():
            try: self.stmt(body)
            finally:
                del self.envs[nen:]; del self.env[depth:]; del self.stack[nst:]
        def N():
            if inc is not None: self.ev(inc)
        self.loop(C, B, N, name + ' loop')
    def leaf_invariant(self, loc, sym, v0):
        out = []
        # size_t counters never become negative (unsigned)
        return out
    def s_CXXTryStmt(self, n): raise Unsupported('try')
    def s_CXXForRangeStmt(self, n):
        inner = [x for x in n['inner'] if isinstance(x, dict)]
        # range init / begin / end declarations, condition, increment, loop variable, body
        ds = [x for x in inner if x.get('kind') == 'DeclStmt']
        self.env.append({})
        try:
            for d in ds[:-1]: self.stmt(d)
            ex = [x for x in inner if x.get('kind') and x.get('kind') != 'DeclStmt']
            cond, inc, body = ex[0], ex[1], ex[-1]
            var = ds[-1]
            depth = len(self.env); nst = len(self.stack); nen = len(self.envs)
            def B():
                self.env.append({})
                try: self.stmt(var); self.stmt(body)
                finally:
                    del self.envs[nen:]; del self.env[depth:]; del self.stack[nst:]
            self.loop(lambda: self.ev_boolv(cond), B, lambda: self.ev(inc), self.fname() + ' loop')
        finally: self.env.pop()

def _factor_const(t, w):
    """t / w when every term of the sum t is a multiple of the constant w"""
    ts = t.children() if z3.is_add(t) else [t]
    out = []
    for x in ts:
        c = cval(x)
        if c is not None:
            if c % w: return None
            out.append(I(c // w)); continue
        fs = x.children() if z3.is_mul(x) else [x]
        j = [i for i, f in enumerate(fs) if cval(f) is not None]
        if not j or cval(fs[j[0]]) % w: return None
        r = I(cval(fs[j[0]]) // w)
        for i, f in enumerate(fs):
            if i != j[0]: r = r * f
        out.append(r)
    return simp(sum(out[1:], out[0]))
