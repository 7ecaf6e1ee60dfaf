"""Contracts of the file readers (C17, C18)."""
from fractions import Fraction
import z3
from dv.core import *
from dv.machine import *
from dv.pyval import *
from dv import pyx, pylib
from dv.pyx import Py, FA, InvSpec, load
from dv.pyspecs import *
from dv.pyspecs import spec, PySpec, bad, eq, arr_post, known, within, nat, real, sarr, mk_metadata
from dv.pyspecs2 import *
from dv.pyspecs2 import IS, RS, inverse, dct
from dv.pyspecs3 import *
from dv.pyspecs3 import mk_obj, opaque

# what the bytes of the file at an offset encode
i32, u8 = z3.Function('file.int32', IS, IS), z3.Function('file.uint8', IS, IS)
f64, stx = z3.Function('file.float64', IS, RS), z3.Function('file.str', IS, IS, IS)
SIGPROC_KEYS = {'str': 'filename telescope rawdatafile source_name obs_date obs_time',
    'int': 'telescope_id machine_id data_type barycentric pulsarcentric nbits nsamples nchans nifs nbeams ibeam hdrlen orig_hdrlen new_hdrlen sampsize',
    'float': 'az_start za_start src_raj src_dej tstart tsamp fch1 foff fchannel refdm flux period pb ecc asini bandwidth fbottom ftop accel', 'bool': 'signed'}
SIGPROC_KEYS = {k: t for t, l in SIGPROC_KEYS.items() for k in l.split()}
FMT = {'i': (4, i32, 'int'), 'l': (4, i32, 'int'), 'd': (8, f64, 'float'), 'B': (1, u8, 'int')}
def file_model(E, pos):
    """an open binary file with a position; reading n bytes gives the bytes at the position (the file is long enough)"""
    o = ORef(E.new(StructVal('file', {'pos': I(pos)})))
    f = lambda: E.cells[o.id].f
    def setpos(p): E.setattr(o, 'pos', simp(p))
    def read(n=None):
        if n is None: raise Unsupported('reading the rest of the file')
        n = E.num(n); p = f()['pos']; setpos(p + n); return LibObj('bytes', [p, n])
    def seek(n, whence=0):
        w = cval(E.num(whence))
        if w not in (0, 1): raise Unsupported('seek from the end')
        setpos(E.num(n) if w == 0 else f()['pos'] + E.num(n)); return f()['pos']
    E.cells[o.id] = StructVal('file', {'pos': I(pos), 'read': Native(read), 'seek': Native(seek), 'tell': Native(lambda: f()['pos'])})
    return o
def bytes_model(E):
    E.libfuncs = dict(getattr(E, 'libfuncs', {}))
    def unpack(E, a, k):
        fmt, b = a
        if not isinstance(fmt, str) or not (isinstance(b, LibObj) and b.name == 'bytes'): raise Unsupported('struct.unpack of this')
        c = fmt.lstrip('@=<')
        if c not in FMT or (c == 'l' and fmt[0] not in '=<'): raise Unsupported('struct format %r' % fmt)
        sz, fn, ty = FMT[c]
        E.ctx.oblige('%s: struct.unpack gets %d bytes' % (E.ctx.func, sz), b.args[1] == sz, 'pre')
        v = fn(simp(b.args[0]))
        if c == 'B': E.ctx.assume(z3.And(0 <= v, v <= 255))
        return (v,)
    E.libfuncs['struct.unpack'] = unpack
    E.opq_methods[('bytes', 'decode')] = lambda E, o, a, k: Opq('str', stx(simp(o.args[0]), simp(o.args[1])))
def str_at(p): return stx(simp(I(p) + 4), i32(simp(I(p))))
def str_end(p): return simp(I(p) + 4 + i32(simp(I(p))))
def fpos(E, o): return E.cells[o.id].f['pos']
@spec
class ReadStr(PySpec):
    key = 'riptide.reading.sigproc.read_str'
    def prepare(s, E): bytes_model(E)
    def setup(s, E, case):
        s.p = nat(E, 'pos', 0); s.f = file_model(E, s.p); E.ctx.assume(i32(s.p) >= 0)
        return [s.f], {}
    def post(s, E, a, r, s0, case):
        eq(E, s.label + ': the string at this position', r, Opq('str', str_at(s.p)))
        eq(E, s.label + ': position after the string', fpos(E, s.f), str_end(s.p))
    def effect(s, E, b):
        o = b['fobj']
        if not (isinstance(o, ORef) and E.cells[o.id].tname == 'file'): raise Unsupported('read_str of something else')
        p = fpos(E, o); E.setattr(o, 'pos', str_end(p)); E.ctx.assume(i32(p) >= 0)
        return Opq('str', str_at(p))
@spec
class ReadAttribute(PySpec):
    key = 'riptide.reading.sigproc.read_attribute'
    cases = ['end', 'str', 'int', 'float', 'bool', 'unknown key', 'unsupported type']
    exc = 'Exception'
    has_effect = False
    def prepare(s, E): bytes_model(E)
    def setup(s, E, case):
        s.p = nat(E, 'pos', 0); s.f = file_model(E, s.p); E.ctx.assume(i32(s.p) >= 0)
        s.q = str_end(s.p); s.end = str_at(s.p) == E.strcode('HEADER_END')
        E.ctx.assume(i32(s.q) >= 0)
        E.ctx.assume(s.end if case == 'end' else z3.Not(s.end))
        ty = {'unknown key': None, 'end': None, 'unsupported type': Lib('complex')}.get(case, Lib(case))
        def has(k): E.ctx.oblige('%s: looks up the key that was read' % s.lab, k.id == str_at(s.p) if isinstance(k, Opq) else z3.BoolVal(False), 'pre')
        def get(E, o, a, k):
            has(a[0]); d = a[1] if len(a) > 1 else k.get('default')
            return ty if ty is not None else d
        s.lab = 'reading.sigproc.read_attribute [%s]' % case
        def item(k):
            has(k)
            if ty is None: raise CThrow('KeyError')
            return ty
        E.opq_methods[('keydb', 'get')] = get
        E.dicthooks = {'has': lambda E, d, k: (has(k), z3.BoolVal(ty is not None))[1], 'get': lambda E, d, k: item(k)}
        s.db = LibObj('keydb', [])
        return [s.f, s.db], {}
    def raises(s, E, a, case): return z3.BoolVal(True) if case in ('unknown key', 'unsupported type') else None
    def post(s, E, a, r, s0, case):
        if case in ('unknown key', 'unsupported type'): return
        L = s.label; q = s.q
        if not (isinstance(r, tuple) and len(r) == 2): return bad(E, L + ': returns a key and a value')
        eq(E, L + ': key', r[0], Opq('str', str_at(s.p)) if not isinstance(r[0], str) else E.ctx.func and 'HEADER_END')
        val = {'str': (Opq('str', str_at(q)), str_end(q)), 'int': (i32(q), q + 4), 'float': (f64(q), q + 8), 'bool': (u8(q) != 0, q + 1), 'end': (None, q)}[case]
        if case != 'end': eq(E, L + ': value', r[1], val[0])
        if case == 'bool': E.ctx.oblige(L + ': value is a bool', z3.BoolVal(isinstance(r[1], bool) or z3.is_bool(r[1])), 'post')
        eq(E, L + ': position after the pair', fpos(E, s.f), val[1])
KEXTRA = {'extra_key': 'float', 'source_name': 'str', 'nbits': 'int', 'flag': 'bool'}
@spec
class ReadSigprocHeader(PySpec):
    key = 'riptide.reading.sigproc.read_sigproc_header'
    cases = ['standard keys', 'extra keys']
    exc = 'Exception'
    has_effect = False
    def prepare(s, E):
        bytes_model(E); E.dlog = True
        def ra(E, b):
            o = b['fobj']
            if not (isinstance(o, ORef) and E.cells[o.id].tname == 'file'): raise Unsupported('file')
            d = b['keydb']
            if not isinstance(d, DCT) or d.rest is not None: raise Unsupported('key database')
            got = {k: v.name if isinstance(v, Lib) else '?' for k, v in d.ent.items()}
            E.ctx.oblige('%s: keys have their documented types' % E.ctx.func, z3.BoolVal(got == s.db), 'pre')
            p = simp(fpos(E, o)); E.ctx.assume(i32(p) >= 0)
            k = str_at(p)
            if E.decide(k == E.strcode('HEADER_END')):
                E.setattr(o, 'pos', str_end(p)); return (Opq('str', k), None)
            if E.decide(s.unk(p)):
                E.ctx.assume(s.unread); raise CThrow('KeyError')        # definition of unread: an unknown pair comes before the end flag
            E.setattr(o, 'pos', s.nxt(p)); return (Opq('str', k), Opq('value', s.val(p)))
        E.contracts['riptide.reading.sigproc.read_attribute'] = ra
    def setup(s, E, case):
        s.db = dict(SIGPROC_KEYS)
        ex = {} if case == 'standard keys' else KEXTRA
        s.db.update(ex)
        ex = dct({k: Lib(t) for k, t in ex.items()})
        s.nxt = lambda p: z3.Function('next_pair', IS, IS)(simp(I(p))); s.val = lambda p: z3.Function('pair_value', IS, IS)(simp(I(p)))
        s.unk = lambda p: z3.Function('pair_unknown', IS, z3.BoolSort())(simp(I(p)))
        s.P = lambda j: z3.Function('pair_pos', IS, IS)(simp(I(j)))
        s.start = str_end(I(0)); E.ctx.assume(i32(I(0)) >= 0)
        E.ctx.assume(s.P(0) == s.start)
        s.E0 = E.strcode('HEADER_END')
        s.f = file_model(E, nat(E, 'pos', 0))
        # unread: some pair of an unknown type comes before the end flag (the j-th)
        s.unread, j = z3.Bool('unread'), nat(E, 'unknown_pair', 0)
        E.ctx.assume(z3.Implies(s.unread, s.unk(s.P(j))))
        E.assume_fact(FA(1, lambda i: (z3.And(s.unread, 0 <= i, i <= j), str_at(s.P(i)) != s.E0), [('pair_pos', 0)]))
        s.j = j
        s.wrong = str_at(I(0)) != E.strcode('HEADER_START')
        m = load(E.repo, 'riptide.reading.sigproc')
        s.g0 = E.modval(m, 'sigproc_keydb')
        return [s.f, ex], {}
    def logof(s, E):
        """pairs read so far: the log of the dictionary that the loop fills"""
        out = []; e = E.env
        while e is not None:
            for k, c in e.vars.items():
                if isinstance(c, int) and isinstance(E.cells.get(c), DCT) and c not in s.before: 
                    if isinstance(E.cells[c].rest, LibObj) and E.cells[c].rest.name == 'log': out.append(E.cells[c].rest.args[0])
            e = e.parent
        if len(out) > 1: raise Unsupported('several dictionaries are filled')
        return out[0] if out else LST(newoid(), 0, None)
    def invs(s, E):
        s.before = set(); s.hav = None
        def shape(E, v):
            if not isinstance(v, DCT): return E.havoc_py(v)
            if v.ent: raise Unsupported('dictionary filled by the loop')
            f, g = E.ctx.freshfn('hk', ['Int'], 'Int'), E.ctx.freshfn('hv', ['Int'], 'Int'); n = E.ctx.fresh('hn'); E.ctx.assume(n >= 0); s.hn = f(I(0)).decl().name()
            return DCT(v.oid, {}, LibObj('log', [LST(newoid(), n, lambda i: (Opq('str', f(simp(I(i)))), Opq('value', g(simp(I(i))))))]))
        class Sh(dict):
            def items(self):
                out = []; e = E.env
                while e is not None:
                    out += [(k, shape) for k, c in e.vars.items() if isinstance(c, int) and isinstance(E.cells.get(c), DCT)]
                    e = e.parent
                return out
        def inv(E, k):
            l = s.logof(E); n = l.n
            if not E.proving: E.ctx.assume(s.P(n + 1) == s.nxt(s.P(n)))
            def el(i):
                v = l.at(i, E.ctx)
                if not (isinstance(v, tuple) and isinstance(v[0], Opq) and isinstance(v[1], Opq) and v[1].cls == 'value'): raise Unsupported('what the loop stores')
                return z3.And(v[0].id == str_at(s.P(i)), v[1].id == s.val(s.P(i)))
            pos = ('position', fpos(E, s.f) == s.P(n))
            if cval(simp(n)) == 0: return [pos]
            return [pos, ('no end flag or unknown pair so far', FA(1, lambda i: (z3.And(0 <= i, i < n), z3.And(str_at(s.P(i)) != s.E0, z3.Not(s.unk(s.P(i))))), [('pair_pos', 0)])), ('pairs so far', FA(1, lambda i: (z3.And(0 <= i, i < n), el(i)), [(s.hn, 0)] if not l.tail and cval(n) is None else None))]
        return [InvSpec(lambda E, n: E.top == s.key and E.calldepth <= 1, inv, shapes=Sh(x=1), name='loop over the header pairs')]
    def raises(s, E, a, case): return z3.Or(s.wrong, s.unread)
    def post(s, E, a, r, s0, case):
        ctx, L = E.ctx, s.label
        ctx.oblige(L + ': the file begins with the start flag', z3.Not(s.wrong), 'post')
        if not (isinstance(r, tuple) and len(r) == 2): return bad(E, L + ': returns the pairs and the size')
        d = E.thaw(r[0])
        if not isinstance(d, DCT) or d.ent or not (d.rest is None or isinstance(d.rest, LibObj) and d.rest.name == 'log'): return bad(E, L + ': returns the pairs read')
        l = d.rest.args[0] if d.rest is not None else LST(newoid(), 0, None)
        i = ctx.fresh('i')
        s.P(s.j)
        ctx.oblige(L + ': the last pair is followed by the end flag', str_at(s.P(l.n)) == s.E0, 'post')
        eq(E, L + ': size of the header', r[1], str_end(s.P(l.n)))
        def one():
            k, v = l.at(i, ctx)
            ctx.oblige(L + ': pairs are those of the file in order', z3.And(k.id == str_at(s.P(i)), v.id == s.val(s.P(i)), k.id != s.E0), 'post')
        if cval(simp(l.n)) != 0: within(E, [0 <= i, i < l.n], one)
        m = load(E.repo, 'riptide.reading.sigproc'); g = E.modval(m, 'sigproc_keydb')
        ctx.oblige(L + ': the standard keys are unchanged', z3.BoolVal(isinstance(g, DCT) and set(g.ent) == set(s.g0.ent) and all(same(g.ent[k], s.g0.ent[k]) for k in g.ent)), 'frame')
@spec
class ParseFloatCoord(PySpec):
    key = 'riptide.reading.sigproc.parse_float_coord'
    cases = ['positive', 'zero', 'negative']
    has_effect = False
    def setup(s, E, case):
        s.x = real(E, 'coordinate'); s.sg = {'positive': 1, 'zero': 0, 'negative': -1}[case]
        E.ctx.assume(s.x > 0 if s.sg > 0 else s.x < 0 if s.sg < 0 else s.x == 0)
        return [s.x], {}
    def post(s, E, a, r, s0, case):
        # |x| = 10000 h + 100 m + s with 0 <= m < 100, 0 <= s < 100
        y = s.x if s.sg >= 0 else -s.x
        h = ffloor(simp(y / 10000)); rem = y - 10000 * R(h); m = ffloor(simp(rem / 100)); sec = rem - 100 * R(m)
        E.ctx.oblige(s.label + ': degrees (hours), minutes and seconds', R(E.num(r)) == s.sg * (R(h) + R(m) / 60 + sec / 3600), 'post')

# ------------------------------------------------------------------ C17: header objects and time series
SIG = 'riptide.reading.sigproc.SigprocHeader'
fsize = z3.Function('file.size', IS, IS)
def sig_obj(E, s, present, absent, extra=None, nchans=None, nbits=None):
    """a header object: the named pairs, other pairs unknown, absent keys absent"""
    s.nchans = nat(E, 'nchans', 1) if nchans is None else nchans
    s.nbits = nat(E, 'nbits', 1) if nbits is None else nbits
    s.tsamp = real(E, 'tsamp', 0); s.B = nat(E, 'bytesize', 1); s.fn = Opq('str', E.ctx.fresh('fname'))
    s.v = {k: (E.ctx.fresh(k, 'Real') if SIGPROC_KEYS[k] == 'float' else Opq('str', E.ctx.fresh(k)) if SIGPROC_KEYS[k] == 'str' else E.ctx.fresh(k, 'Bool') if SIGPROC_KEYS[k] == 'bool' else E.ctx.fresh(k)) for k in present}
    for k, v in zip(('nchans', 'nbits', 'tsamp'), (s.nchans, s.nbits, s.tsamp)): s.v[k] = v
    s.rest = Opq('dict', E.ctx.fresh('other_pairs'))
    def has(E, d, k):
        if k in absent: return z3.BoolVal(False)
        raise Unsupported('key %r' % (k,))
    def get(E, d, k):
        if k in absent: raise CThrow('KeyError')
        raise Unsupported('key %r' % (k,))
    E.dicthooks = {'has': has, 'get': get}
    return mk_obj(E, 'riptide.reading.sigproc', 'SigprocHeader', __dict__=DCT(newoid(), dict(s.v), s.rest), _fname=s.fn, _bytesize=s.B)
def skymodel(E):
    E.libfuncs = dict(getattr(E, 'libfuncs', {}))
    def sc(E, a, k):
        un = k.get('unit'); un = un.items() if isinstance(un, LST) else list(un) if isinstance(un, tuple) else None
        ok = un is not None and [getattr(x, 'name', None) for x in un] == ['astropy.units.hour', 'astropy.units.degree'] and k.get('frame') == 'icrs' and len(a) == 2
        if not ok: raise Unsupported('sky coordinate given in another way')
        return Opq('skycoord', z3.Function('skycoord', RS, RS, IS)(simp(R(E.num(a[0]))), simp(R(E.num(a[1])))))
    E.libfuncs['astropy.coordinates.SkyCoord'] = sc
    E.libfuncs['os.path.getsize'] = lambda E, a, k: fsize(a[0].id)
coord = z3.Function('sigproc_coordinate', RS, RS)
def skyval(ra, de): return Opq('skycoord', z3.Function('skycoord', RS, RS, IS)(coord(ra), coord(de)))
def coord_contract(E):
    E.contracts['riptide.reading.sigproc.parse_float_coord'] = lambda E, b: coord(simp(R(E.num(b['f']))))
class SigProp(PySpec):
    has_effect = False
    present = ()
    def prepare(s, E): skymodel(E); coord_contract(E)
    def setup(s, E, case):
        s.o = sig_obj(E, s, s.present, ()); E.ctx.assume(s.nchans * s.nbits >= 8)
        s.bps = idiv(s.nchans * s.nbits, I(8)); s.ns = idiv(fsize(s.fn.id) - s.B, s.bps)
        return [s.o], {}
    def frame(s, E, a): return []
def sig_prop(name, want, present=()):
    def post(s, E, a, r, s0, case): eq(E, s.label + ': value', r, want(s))
    spec(type('Sig_' + name, (SigProp,), {'key': SIG + '.' + name, 'present': present, 'post': post}))
sig_prop('bytes_per_sample', lambda s: s.bps)
sig_prop('nsamp', lambda s: s.ns)
sig_prop('tobs', lambda s: R(s.ns) * s.tsamp)
sig_prop('bytesize', lambda s: s.B)
sig_prop('fname', lambda s: s.fn)
sig_prop('skycoord', lambda s: skyval(s.v['src_raj'], s.v['src_dej']), ('src_raj', 'src_dej'))
def open_model(E, s):
    """open(name, 'rb') gives the file of this name at position 0"""
    s.opened = []
    def enter(kind, v):
        if kind == 'enter' and isinstance(v, ORef) and E.cells[v.id].tname == 'file': return v
    E.libhook = enter
    def op(E, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode != 'rb': raise Unsupported('open with mode %r' % (mode,))
        o = file_model(E, I(0)); E.setattr(o, 'name', a[0]); s.opened.append(o); return o
    E.libfuncs['open'] = op
@spec
class SigInit(PySpec):
    key = SIG + '.__init__'
    cases = ['readable', 'rejected']
    exc = 'Exception'
    def prepare(s, E):
        bytes_model(E); open_model(E, s)
        def rh(E, b):
            o = b['fobj']
            if not (isinstance(o, ORef) and E.cells[o.id].tname == 'file'): raise Unsupported('file')
            eq(E, E.ctx.func + ': the file of the given name is read', E.cells[o.id].f['name'], s.path); 
            E.ctx.oblige(E.ctx.func + ': the extra keys are passed', z3.BoolVal(same(E.thaw(b['extra_keys']), s.ex)), 'post')
            if s.case == 'rejected': raise CThrow('KeyError')
            return (DCT(newoid(), {'tsamp': s.t}, s.rest), s.B)
        E.contracts['riptide.reading.sigproc.read_sigproc_header'] = rh
    def setup(s, E, case):
        s.case = case; s.fn = Opq('str', E.ctx.fresh('fname')); s.t, s.B, s.rest = real(E, 'tsamp', 0), nat(E, 'B', 1), Opq('dict', E.ctx.fresh('pairs'))
        s.path = Opq('str', z3.Function('realpath', IS, IS)(s.fn.id)); s.ex = dct({'extra_key': Lib('float')})
        cls = E.modval(load(E.repo, 'riptide.reading.sigproc'), 'SigprocHeader')
        s.o = ORef(E.new(StructVal('SigprocHeader', {'__class__': cls, '__dict__': DCT(newoid(), {})})))
        return [s.o, s.fn, s.ex], {}
    has_effect = False
    def raises(s, E, a, case): return z3.BoolVal(True) if case == 'rejected' else None
    def post(s, E, a, r, s0, case):
        if case == 'rejected': return
        L = s.label; f = E.cells[s.o.id].f; d = f['__dict__']
        E.ctx.oblige(L + ': the object holds the pairs of the header', z3.BoolVal(isinstance(d, DCT) and set(d.ent) == {'tsamp'} and same(d.rest, s.rest)), 'post')
        eq(E, L + ': value of a pair', d.ent.get('tsamp'), s.t)
        for n, w in (('fname', s.path), ('bytesize', s.B)): eq(E, '%s: %s' % (L, n), E.getattr(s.o, n), w)
NOSIG = ('refdm', 'source_name', 'tstart', 'signed', 'dm', 'mjd', 'tobs', 'fname', 'skycoord')
def sig_case(case):
    """which optional keys are present, and the values of nchans and nbits"""
    pres = {'src_raj', 'src_dej'}
    if 'all keys' in case: pres |= {'refdm', 'source_name', 'tstart'}
    if 'signed' in case and 'without' not in case: pres.add('signed')
    return pres, [k for k in NOSIG if k not in pres]
def meta_want(s, E):
    """metadata of the time series: the pairs of the header, and the standard keys"""
    w = dict(s.v)
    w.update(dm=s.v.get('refdm'), source_name=s.v.get('source_name'), mjd=s.v.get('tstart'), skycoord=skyval(s.v['src_raj'], s.v['src_dej']), fname=Opq('str', z3.Function('realpath', IS, IS)(s.fn.id)))
    return w
@spec
class MetaFromSigproc(PySpec):
    key = 'riptide.metadata.Metadata.from_sigproc'
    cases = ['all keys', 'no optional key', 'all keys signed', 'multi-channel', 'other depth', '8-bit without signed']
    exc = 'ValueError'
    has_effect = False
    def prepare(s, E): skymodel(E); coord_contract(E)
    def setup(s, E, case):
        pres, absent = sig_case(case)
        nch = nat(E, 'nchans', 2) if case == 'multi-channel' else I(1)
        nb = nat(E, 'nbits', 1)
        s.o = sig_obj(E, s, pres, absent, nchans=nch, nbits=nb)
        if case == 'other depth': E.ctx.assume(z3.And(nb != 8, nb != 32))
        if case in ('all keys', 'no optional key'): E.ctx.assume(nb == 32)
        if case == 'all keys signed': E.ctx.assume(z3.Or(nb == 32, nb == 8))
        if case == '8-bit without signed': E.ctx.assume(nb == 8)
        s.ns = idiv(fsize(s.fn.id) - s.B, idiv(nch * nb, I(8)))
        cls = E.modval(load(E.repo, 'riptide.metadata'), 'Metadata')
        return [s.o], {}
    def raises(s, E, a, case): return z3.BoolVal(True) if case in ('multi-channel', 'other depth', '8-bit without signed') else None
    def post(s, E, a, r, s0, case):
        if s.raises(E, a, case) is not None: return
        L = s.label
        if not isinstance(r, ORef) or E.cells[r.id].tname != 'Metadata': return bad(E, L + ': returns a Metadata object')
        d = E.cells[r.id].f['__dict__']; w = meta_want(s, E); w['tobs'] = R(s.ns) * s.tsamp
        E.ctx.oblige(L + ': keys', z3.BoolVal(isinstance(d, DCT) and set(d.ent) == set(w) and same(d.rest, s.rest)), 'post')
        for k in w: eq(E, '%s: %s' % (L, k), d.ent.get(k), w[k])
        h0, h1 = s0[0][s.o.id].f['__dict__'], E.cells[s.o.id].f['__dict__']
        E.ctx.oblige(L + ': the header is unchanged', z3.BoolVal(same(h0, h1)), 'frame')
@spec
class TSFromSigproc(PySpec):
    key = 'riptide.time_series.TimeSeries.from_sigproc'
    cases = ['32-bit', '8-bit']
    has_effect = False
    def prepare(s, E):
        bytes_model(E); open_model(E, s)
        def sig(E, args, kw):
            eq(E, E.ctx.func + ': header of the given file', args[0], s.fn)
            ex = args[1] if len(args) > 1 else kw.get('extra_keys')
            E.ctx.oblige(E.ctx.func + ': the extra keys are passed', z3.BoolVal(ex is not None and same(E.thaw(ex), s.ex)), 'post')
            return s.o
        E.contracts[SIG] = sig
        def md(E, b):
            eq(E, E.ctx.func + ': metadata of this header', b['sh'], s.o)
            return mk_metadata(E, **s.v)
        E.contracts['riptide.metadata.Metadata.from_sigproc'] = md
        def fromfile(E, a, k):
            o = a[0]; dt = pylib.dtname(k.get('dtype', a[1] if len(a) > 1 else None))
            if not (isinstance(o, ORef) and E.cells[o.id].tname == 'file') or len(a) > 2 or set(k) - {'dtype'}: raise Unsupported('np.fromfile of this')
            sz = {'float32': 4, 'int8': 1, 'uint8': 1}.get(dt)
            if sz is None: raise Unsupported('samples of type %s' % dt)
            eq(E, E.ctx.func + ': the data file is read', E.cells[o.id].f['name'], s.fn)
            p = fpos(E, o); n = idiv(fsize(s.fn.id) - p, I(sz))
            ctx = E.ctx; ctx.assume(n >= 0)
            return E.arr([n], lambda i: smp(dt)(simp(p + sz * I(i))), dt)
        E.libfuncs['numpy.fromfile'] = fromfile
    def setup(s, E, case):
        s.o = sig_obj(E, s, {'signed'} if case == '8-bit' else (), (), nchans=I(1), nbits=I(32 if case == '32-bit' else 8))
        s.ex = dct({'extra_key': Lib('float')})
        E.ctx.assume(fsize(s.fn.id) >= s.B + 8)
        cls = E.modval(load(E.repo, 'riptide.time_series'), 'TimeSeries')
        return [s.fn], {'extra_keys': s.ex}
    def post(s, E, a, r, s0, case):
        L = s.label; sz = 4 if case == '32-bit' else 1
        n = idiv(fsize(s.fn.id) - s.B, I(sz))
        if not isinstance(r, ORef) or E.cells[r.id].tname != 'TimeSeries': return bad(E, L + ': returns a time series')
        f = E.cells[r.id].f
        val = lambda i: smp('float32')(simp(s.B + 4 * I(i))) if sz == 4 else R(z3.If(s.v['signed'], smp('int8')(simp(s.B + I(i))), smp('uint8')(simp(s.B + I(i)))))
        arr_post(E, L + ': data', f['_data'], [n], val, 'float32')
        eq(E, L + ': sampling time', f['_tsamp'], s.tsamp)
        d = E.cells[f['metadata'].id].f['__dict__']
        for k in s.v: eq(E, '%s: metadata %s' % (L, k), d.ent.get(k), s.v[k])
        eq(E, L + ': metadata tobs', d.ent.get('tobs'), R(n) * s.tsamp)
        E.ctx.oblige(L + ': no other metadata', z3.BoolVal(set(d.ent) == set(s.v) | set(MD_KEYS)), 'post')
def smp(dt): return z3.Function('file.' + dt, IS, RS if dt == 'float32' else IS)

# ------------------------------------------------------------------ C18: PRESTO files
PRESTO = 'riptide.reading.presto.'
llen, lchar, lsub, sstrip = (z3.Function('line.' + n, *([IS] * k)) for n, k in (('len', 2), ('char', 3), ('from', 3), ('strip', 2)))
okf, oki = z3.Function('is_float', IS, z3.BoolSort()), z3.Function('is_int', IS, z3.BoolSort())
fval, ival = z3.Function('float_of', IS, RS), z3.Function('int_of', IS, IS)
nparts, part = z3.Function('parts', IS, IS), z3.Function('part', IS, IS, IS)
def wf(l, E): return z3.And(llen(l) > 40, lchar(l, I(40)) == E.strcode('='))
def field(l): return sstrip(lsub(l, I(41)))
VT = {'str': (lambda f: z3.BoolVal(True), lambda f: Opq('str', f)), 'float': (okf, fval), 'int': (oki, ival),
      'parse_bool': (oki, lambda f: ival(f) != 0),
      'parse_int_pair': (lambda f: z3.And(nparts(f) == 2, oki(part(f, I(0))), oki(part(f, I(1)))), lambda f: (ival(part(f, I(0))), ival(part(f, I(1)))))}
def text_model(E):
    """text lines as opaque values: their length, characters, tails; conversions of strings to numbers"""
    E.libfuncs = dict(getattr(E, 'libfuncs', {}))
    def over(name, fn):
        def f(E, a, k):
            if a and isinstance(a[0], Opq): return fn(a[0])
            E.libfuncs.pop(name)
            try: return pylib.call(E, name, a, k)
            finally: E.libfuncs[name] = f
        E.libfuncs[name] = f
    def conv(ok, val):
        def f(o):
            if o.cls != 'str': raise Unsupported('conversion of %r' % (o,))
            if not E.decide(ok(o.id)): raise CThrow('ValueError')
            return val(o.id)
        return f
    over('float', conv(okf, fval)); over('int', conv(oki, ival))
    def ln(o):
        if o.cls != 'line': raise Unsupported('length of %r' % (o,))
        E.ctx.assume(llen(o.id) >= 0); return llen(o.id)
    over('len', ln)
    def get(E, o, a, k):
        ix = a[0]
        if isinstance(ix, tuple):
            if ix[0] != 'slice' or ix[2] is not None or ix[3] is not None: raise Unsupported('slice of a line')
            return Opq('str', lsub(o.id, simp(E.num(ix[1]))))
        i = cval(E.num(ix))
        if i is None or i < 0: raise Unsupported('character of a line')
        if not E.decide(llen(o.id) > i): raise CThrow('IndexError')
        return Opq('str', lchar(o.id, I(i)))
    def strip(E, o, a, k):
        if a or k: raise Unsupported('strip with arguments')
        return Opq('str', sstrip(o.id))
    def split(E, o, a, k):
        if list(a) != [','] or k: raise Unsupported('split')
        E.ctx.assume(nparts(o.id) >= 1)
        return LST(newoid(), nparts(o.id), lambda i: Opq('str', part(o.id, simp(I(i)))))
    for n, f in (('__getitem__', get),): E.opq_methods[('line', n)] = f
    E.opq_methods[('str', 'strip')] = strip; E.opq_methods[('str', 'split')] = split
def vname(v):
    n = v.name if isinstance(v, Lib) else v.qual.split('.')[-1] if isinstance(v, PyFunc) and v.qual.startswith(PRESTO) else None
    if n not in VT: raise Unsupported('field type %r' % (v,))
    return n
@spec
class ParseInfValue(PySpec):
    key = PRESTO + 'parse_inf_value'
    cases = list(VT)
    exc = 'ValueError'
    def prepare(s, E): text_model(E)
    def setup(s, E, case):
        s.l = E.ctx.fresh('line'); s.vt = Lib(case) if case in ('str', 'float', 'int') else E.modval(load(E.repo, PRESTO[:-1]), case)
        return [Opq('line', s.l), s.vt], {}
    def raises(s, E, a, case): return z3.Not(z3.And(wf(s.l, E), VT[case][0](field(s.l))))
    def post(s, E, a, r, s0, case):
        w = VT[case][1](field(s.l))
        if case == 'parse_bool': E.ctx.oblige(s.label + ': a bool', z3.BoolVal(isinstance(r, bool) or z3.is_expr(r) and z3.is_bool(r)), 'post')
        eq(E, s.label + ': value', r, w)
    def effect(s, E, b):
        l, v = b['line'], vname(b['vtype'])
        if not (isinstance(l, Opq) and l.cls == 'line'): raise Unsupported('line')
        if not E.decide(z3.And(wf(l.id, E), VT[v][0](field(l.id)))): raise CThrow('ValueError')
        return VT[v][1](field(l.id))
HEAD = [('basename', 'str'), ('telescope', 'str'), ('instrument', 'str'), ('source_name', 'str'), ('raj', 'str'), ('decj', 'str'), ('observer', 'str'), ('mjd', 'float'), ('barycentered', 'parse_bool'), ('nsamp', 'int'), ('tsamp', 'float'), ('breaks', 'parse_bool')]
RADIO = [('fov_arcsec', 'float'), ('dm', 'float'), ('fbot', 'float'), ('bandwidth', 'float'), ('nchan', 'int'), ('cbw', 'float'), ('analyst', 'str')]
HIGH = [('fov_arcsec', 'float'), ('central_energy_kev', 'float'), ('energy_bandpass_kev', 'float'), ('analyst', 'str')]
@spec
class Inf2Dict(PySpec):
    key = PRESTO + 'inf2dict'
    cases = ['Radio', 'X-ray', 'Gamma', 'other band', 'artificial data', 'Radio no breaks']
    exc = 'ValueError'
    has_effect = False
    def prepare(s, E):
        text_model(E)
        def strip(E, o, a, k):
            if list(a) != ['\n'] or k: raise Unsupported('strip')
            return o
        E.opq_methods[('text', 'strip')] = strip
        E.opq_methods[('text', 'splitlines')] = lambda E, o, a, k: LST(newoid(), s.nl, lambda i: Opq('line', s.L(i)))
    def setup(s, E, case):
        s.lf = E.ctx.freshfn('line', ['Int'], 'Int'); s.L = lambda i: s.lf(simp(I(i)))
        s.nl = nat(E, 'nlines', 21); s.m = nat(E, 'npairs', 0); E.ctx.assume(s.nl >= 21 + s.m)
        s.nm = s.L(0).decl().name()
        s.pr = lambda i: z3.And(wf(s.L(i), E), VT['parse_int_pair'][0](field(s.L(i))))
        s.fake = field(s.L(1)) == E.strcode('None (Artificial Data Set)')
        s.brk = ival(field(s.L(11))) != 0
        s.band = field(s.L(12 + s.m)); bc = E.strcode
        E.ctx.assume(s.fake if case == 'artificial data' else z3.Not(s.fake))
        b = case.split()[0]
        if case == 'other band': E.ctx.assume(z3.And(*[s.band != bc(x) for x in ('Radio', 'X-ray', 'Gamma')]))
        elif case != 'artificial data': E.ctx.assume(s.band == bc(b))
        if 'no breaks' in case: E.ctx.assume(z3.And(z3.Not(s.brk), s.m == 0))
        elif case in ('Radio', 'other band'): E.ctx.assume(s.brk)
        else: E.ctx.assume(z3.Implies(z3.Not(s.brk), s.m == 0))
        # exactly the first m lines of the list are pairs
        E.assume_fact(FA(1, lambda i: (z3.And(s.brk, 12 <= i, i < 12 + s.m), s.pr(i)), [(s.nm, 0)]))
        E.ctx.assume(z3.Implies(s.brk, z3.Not(s.pr(12 + s.m))))
        s.block = [] if case in ('other band', 'artificial data') else RADIO if b == 'Radio' else HIGH
        return [Opq('text', E.ctx.fresh('text'))], {}
    def ok(s, E, i, ty): return z3.And(wf(s.L(i), E), VT[ty][0](field(s.L(i))))
    def raises(s, E, a, case):
        bad_ = [z3.Not(s.ok(E, i, t)) for i, (k, t) in enumerate(HEAD)] + [z3.Not(wf(s.L(12 + s.m), E))]
        bad_ += [z3.Not(s.ok(E, 13 + s.m + j, t)) for j, (k, t) in enumerate(s.block)]
        return z3.Or(s.fake, z3.BoolVal(case == 'other band'), *bad_)
    def find(s, E):
        e = E.env; out = []
        while e is not None:
            out += [(k, E.cells[c]) for k, c in e.vars.items() if isinstance(c, int) and isinstance(E.cells.get(c), DCT) and isinstance(E.cells[c].ent.get('onoff_pairs'), LST)]
            e = e.parent
        return out
    def invs(s, E):
        def pairs(E):
            l = s.find(E)
            if len({x.oid for _, x in l}) != 1: raise Unsupported('the dictionary that holds the pairs')
            return l[0][1].ent['onoff_pairs']
        def shape(E, v):
            if not (isinstance(v, DCT) and 'onoff_pairs' in v.ent): raise Unsupported('dictionary changed by the loop')
            a, b = E.ctx.freshfn('pa', ['Int'], 'Int'), E.ctx.freshfn('pb', ['Int'], 'Int'); n = E.ctx.fresh('np'); E.ctx.assume(n >= 0)
            s.hn = a(I(0)).decl().name()
            l0 = v.ent['onoff_pairs']
            return v.set('onoff_pairs', LST(l0.oid, n, lambda i: (a(simp(I(i))), b(simp(I(i))))))
        class Sh(dict):
            def items(self): return [(k, shape) for k, _ in s.find(E)]
        def inv(E, k):
            l = pairs(E)
            fs = [('as many pairs as lines', l.n == k), ('all lines so far are pairs', k <= s.m)]
            if cval(simp(l.n)) == 0: return fs
            def el(i):
                v = E.thaw(l.at(i, E.ctx))
                if not (isinstance(v, tuple) and len(v) == 2): raise Unsupported('what the loop stores')
                w = VT['parse_int_pair'][1](field(s.L(12 + i)))
                return z3.And(E.num(v[0]) == w[0], E.num(v[1]) == w[1])
            return fs + [('pairs so far', FA(1, lambda i: (z3.And(0 <= i, i < k), el(i)), [(s.hn, 0)] if not l.tail else None))]
        return [InvSpec(lambda E, n: E.top == s.key and bool(s.find(E)), inv, shapes=Sh(x=1), name='loop over the on/off pairs')]
    def post(s, E, a, r, s0, case):
        L = s.label
        if case in ('other band', 'artificial data'): return
        d = E.thaw(r)
        w = {k: VT[t][1](field(s.L(i))) for i, (k, t) in enumerate(HEAD)}
        w['em_band'] = Opq('str', s.band)
        for j, (k, t) in enumerate(s.block): w[k] = VT[t][1](field(s.L(13 + s.m + j)))
        if not isinstance(d, DCT): return bad(E, L + ': returns a dictionary')
        E.ctx.oblige(L + ': the documented fields', z3.BoolVal(set(d.ent) == set(w) | {'onoff_pairs'} and d.rest is None), 'post')
        for k in w:
            if k in d.ent: eq(E, '%s: %s' % (L, k), d.ent[k] if not isinstance(d.ent[k], str) else Opq('str', E.strcode(d.ent[k])), w[k])
        l = E.thaw(d.ent.get('onoff_pairs'))
        if not isinstance(l, LST): return bad(E, L + ': list of on/off pairs')
        E.ctx.oblige(L + ': number of on/off pairs', l.n == s.m, 'post')
        i = E.ctx.fresh('i')
        def one():
            v = E.thaw(l.at(i, E.ctx)); x = VT['parse_int_pair'][1](field(s.L(12 + i)))
            if isinstance(v, tuple): E.ctx.oblige(L + ': on/off pairs in order', z3.And(E.num(v[0]) == x[0], E.num(v[1]) == x[1]), 'post')
            else: bad(E, L + ': on/off pairs')
        if cval(simp(l.n)) != 0: within(E, [0 <= i, i < l.n], one)
INF = PRESTO + 'PrestoInf'
rstem = z3.Function('str.stem', IS, IS)
def inf_obj(E, s, band):
    b = [('em_band', None)] + (RADIO if band == 'Radio' else HIGH)
    typ = {'str': lambda k: Opq('str', E.ctx.fresh(k)), 'float': lambda k: E.ctx.fresh(k, 'Real'), 'int': lambda k: E.ctx.fresh(k), 'parse_bool': lambda k: E.ctx.fresh(k, 'Bool')}
    s.v = {k: typ[t](k) if t else Opq('str', E.strcode(band)) for k, t in HEAD + b}
    s.v['onoff_pairs'] = LST(newoid(), nat(E, 'npairs', 0), lambda i: (i, i))
    E.ctx.assume(z3.And(s.v['tsamp'] > 0, s.v['nsamp'] >= 1))
    s.fn = Opq('str', E.ctx.fresh('fname'))
    return mk_obj(E, PRESTO[:-1], 'PrestoInf', __dict__=DCT(newoid(), dict(s.v)), _fname=s.fn)
def datname(fn, E): return z3.Function('str.cat', IS, IS, IS)(rstem(fn.id), E.strcode('.dat'))
def name_model(E):
    E.libfuncs = dict(getattr(E, 'libfuncs', {}))
    E.libfuncs['os.path.splitext'] = lambda E, a, k: (Opq('str', rstem(a[0].id)), Opq('str', E.ctx.fresh('ext')))
    def rsplit(E, o, a, k):
        mx = a[1] if len(a) > 1 else k.get('maxsplit')
        if a[0] != '.' or mx is None or cval(E.num(mx)) != 1: raise Unsupported('rsplit')
        return LST.of([Opq('str', rstem(o.id)), Opq('str', E.ctx.fresh('ext'))])
    E.opq_methods[('str', 'rsplit')] = rsplit
    def sc(E, a, k):
        un = k.get('unit'); un = un.items() if isinstance(un, LST) else list(un) if isinstance(un, tuple) else None
        ok = un is not None and [getattr(x, 'name', None) for x in un] == ['astropy.units.hour', 'astropy.units.degree'] and k.get('frame', 'icrs') == 'icrs' and len(a) == 2
        if not ok: raise Unsupported('sky coordinate given in another way')
        return Opq('skycoord', z3.Function('skycoord_of_str', IS, IS, IS)(a[0].id, a[1].id))
    E.libfuncs['astropy.coordinates.SkyCoord'] = sc
def skystr(s): return Opq('skycoord', z3.Function('skycoord_of_str', IS, IS, IS)(s.v['raj'].id, s.v['decj'].id))
class InfProp(PySpec):
    has_effect = False
    cases = ['Radio', 'X-ray']
    def prepare(s, E): name_model(E)
    def setup(s, E, case): s.o = inf_obj(E, s, case); return [s.o], {}
def inf_prop(name, want):
    def post(s, E, a, r, s0, case): eq(E, s.label + ': value', r, want(s, E))
    spec(type('Inf_' + name, (InfProp,), {'key': INF + '.' + name, 'post': post}))
inf_prop('fname', lambda s, E: s.fn)
inf_prop('data_fname', lambda s, E: Opq('str', datname(s.fn, E)))
inf_prop('skycoord', lambda s, E: skystr(s))
def fromfile_model(E, where):
    """numpy.fromfile(name): the samples of the file, from its beginning"""
    def fromfile(E, a, k):
        dt = pylib.dtname(k.get('dtype', a[1] if len(a) > 1 else None))
        if not (isinstance(a[0], Opq) and a[0].cls == 'str') or len(a) > 2 or set(k) - {'dtype'} or dt != 'float32': raise Unsupported('np.fromfile of this')
        n = idiv(fsize(a[0].id), I(4)); E.ctx.assume(n >= 0)
        return E.arr([n], lambda i: z3.Function('samples', IS, IS, RS)(a[0].id, simp(I(i))), dt)
    E.libfuncs['numpy.fromfile'] = fromfile
def dat_post(E, name, arr, fn):
    d = datname(fn, E)
    arr_post(E, name, arr, [idiv(fsize(d), I(4))], lambda i: z3.Function('samples', IS, IS, RS)(d, simp(I(i))), 'float32')
@spec
class InfLoad(InfProp):
    key = INF + '.load_data'
    def prepare(s, E): name_model(E); fromfile_model(E, s)
    def post(s, E, a, r, s0, case): dat_post(E, s.label + ': samples', r, s.fn)
@spec
class InfInit(PySpec):
    key = INF + '.__init__'
    cases = ['readable', 'rejected']
    exc = 'ValueError'
    has_effect = False
    def prepare(s, E):
        E.libfuncs = dict(getattr(E, 'libfuncs', {}))
        def enter(kind, v):
            if kind == 'enter' and isinstance(v, LibObj) and v.name == 'textfile': return v
        E.libhook = enter
        real_ = z3.Function('realpath', IS, IS)
        def op(E, a, k):
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            if mode not in ('r', 'rt'): raise Unsupported('open with mode %r' % (mode,))
            E.ctx.oblige(E.ctx.func + ': the given file is read', z3.Or(a[0].id == s.fn.id, a[0].id == real_(s.fn.id)), 'post')
            return LibObj('textfile', [])
        E.libfuncs['open'] = op
        E.opq_methods[('textfile', 'read')] = lambda E, o, a, k: s.text
        def i2d(E, b):
            eq(E, E.ctx.func + ': the whole text is parsed', b['text'], s.text)
            if s.case == 'rejected': raise CThrow('ValueError')
            return DCT(newoid(), {'tsamp': s.t}, s.rest)
        E.contracts[PRESTO + 'inf2dict'] = i2d
    def setup(s, E, case):
        s.case = case; s.fn = Opq('str', E.ctx.fresh('fname')); s.t, s.rest, s.text = real(E, 'tsamp', 0), Opq('dict', E.ctx.fresh('fields')), Opq('text', E.ctx.fresh('text'))
        cls = E.modval(load(E.repo, PRESTO[:-1]), 'PrestoInf')
        s.o = ORef(E.new(StructVal('PrestoInf', {'__class__': cls, '__dict__': DCT(newoid(), {})})))
        return [s.o, s.fn], {}
    def raises(s, E, a, case): return z3.BoolVal(True) if case == 'rejected' else None
    def post(s, E, a, r, s0, case):
        if case == 'rejected': return
        L = s.label; d = E.cells[s.o.id].f['__dict__']
        E.ctx.oblige(L + ': the object holds the fields of the file', z3.BoolVal(isinstance(d, DCT) and set(d.ent) == {'tsamp'} and same(d.rest, s.rest)), 'post')
        eq(E, L + ': value of a field', d.ent.get('tsamp'), s.t)
        eq(E, L + ': fname', E.getattr(s.o, 'fname'), Opq('str', z3.Function('realpath', IS, IS)(s.fn.id)))
@spec
class MetaFromInf(PySpec):
    key = 'riptide.metadata.Metadata.from_presto_inf'
    cases = ['Radio', 'X-ray', 'Gamma', 'file name']
    has_effect = False
    def prepare(s, E):
        name_model(E)
        def inf(E, args, kw): eq(E, E.ctx.func + ': the given file is read', args[0], s.arg); return s.o
        E.contracts[INF] = inf
    def setup(s, E, case):
        s.o = inf_obj(E, s, 'Radio' if case == 'file name' else case); s.arg = Opq('str', E.ctx.fresh('path'))
        return [s.arg if case == 'file name' else s.o], {}
    def post(s, E, a, r, s0, case):
        L = s.label
        if not isinstance(r, ORef) or E.cells[r.id].tname != 'Metadata': return bad(E, L + ': returns a Metadata object')
        d = E.cells[r.id].f['__dict__']; w = {k: None for k in MD_KEYS}; w.update(s.v)
        w.update(skycoord=skystr(s), fname=Opq('str', z3.Function('realpath', IS, IS)(s.fn.id)), tobs=s.v['tsamp'] * R(s.v['nsamp']))
        E.ctx.oblige(L + ': keys', z3.BoolVal(isinstance(d, DCT) and set(d.ent) == set(w) and d.rest is None), 'post')
        for k in w:
            if k == 'onoff_pairs': E.ctx.oblige(L + ': onoff_pairs', z3.BoolVal(same(d.ent.get(k), w[k]) or isinstance(d.ent.get(k), LST) and d.ent[k].oid == w[k].oid), 'post')
            elif k in d.ent: eq(E, '%s: %s' % (L, k), d.ent[k], w[k])
        E.ctx.oblige(L + ': the parsed fields are unchanged', z3.BoolVal(same(s0[0][s.o.id].f['__dict__'], E.cells[s.o.id].f['__dict__'])), 'frame')
@spec
class TSFromInf(PySpec):
    key = 'riptide.time_series.TimeSeries.from_presto_inf'
    cases = ['Radio', 'X-ray', 'Gamma']
    has_effect = False
    def prepare(s, E):
        name_model(E); fromfile_model(E, s)
        def inf(E, args, kw): eq(E, E.ctx.func + ': the given file is read', args[0], s.arg); return s.o
        E.contracts[INF] = inf
        def md(E, b):
            E.ctx.oblige(E.ctx.func + ': metadata of this file', z3.Or(*[z3.BoolVal(b['inf'].id == s.o.id)] if isinstance(b['inf'], ORef) else [b['inf'].id == s.arg.id]), 'post')
            return mk_metadata(E, **s.v)
        E.contracts['riptide.metadata.Metadata.from_presto_inf'] = md
        E.libfuncs['warnings.warn'] = lambda E, a, k: None
    def setup(s, E, case):
        s.o = inf_obj(E, s, case); s.arg = Opq('str', E.ctx.fresh('path')); E.ctx.assume(fsize(datname(s.fn, E)) >= 8)
        return [s.arg], {}
    def post(s, E, a, r, s0, case):
        L = s.label
        if not isinstance(r, ORef) or E.cells[r.id].tname != 'TimeSeries': return bad(E, L + ': returns a time series')
        f = E.cells[r.id].f
        dat_post(E, L + ': data', f['_data'], s.fn)
        eq(E, L + ': sampling time', f['_tsamp'], s.v['tsamp'])
        d = E.cells[f['metadata'].id].f['__dict__']
        for k in s.v:
            if k != 'onoff_pairs': eq(E, '%s: metadata %s' % (L, k), d.ent.get(k), s.v[k])
        eq(E, L + ': metadata tobs', d.ent.get('tobs'), R(idiv(fsize(datname(s.fn, E)), I(4))) * s.v['tsamp'])
        E.ctx.oblige(L + ': no other metadata', z3.BoolVal(set(d.ent) == set(s.v) | set(MD_KEYS)), 'post')
