"""Contracts of the JSON serialization (C19).

json, base64, numpy buffers, pandas tables and sky coordinates are library models: json.dumps calls the encoder for
values that are not plain, json.loads calls the object hook on every dictionary from the innermost outwards."""
import z3
from dv.core import *
from dv.machine import *
from dv.pyval import *
from dv import pyx, pylib
from dv.pyx import Py, FA, InvSpec, load
from dv.pyspecs import *
from dv.pyspecs import spec, PySpec, bad, eq, arr_post, known, within, nat, real, sarr, mk_metadata
from dv.pyspecs2 import *
from dv.pyspecs2 import IS, RS, inverse, dct
from dv.pyspecs3 import mk_obj, opaque

SKY = 'astropy.coordinates.SkyCoord'
def mk_sky(E, i):
    """sky coordinate: its own frame may be any; `icrs` gives the equatorial position"""
    ang = lambda f: LibObj('angle', [], {'deg': z3.Function('sky.' + f, IS, RS)(i), 'degree': z3.Function('sky.' + f, IS, RS)(i)})
    ic = LibObj('icrs', [i], {'ra': ang('ra'), 'dec': ang('dec')})
    return LibObj(SKY, [i], {'icrs': ic, 'ra': ang('own frame ra'), 'dec': ang('own frame dec')})
def mk_frame(E, cols):
    n = nat(E, 'rows', 1)
    return LibObj('pandas.DataFrame', [], {'values': sarr(E, 'table', [n, len(cols)], 'Real', 'float64'), 'columns': LST.of(list(cols))})
def view(a):
    """the same array with any memory layout"""
    return ND(a.buf, a.shape, lambda *i: tuple(i))
class Json:
    """model of json.dumps(obj, cls=...) followed by json.loads(text, object_hook=...)"""
    def install(s, E):
        E.libfuncs = dict(getattr(E, 'libfuncs', {}))
        L = E.libfuncs
        L['json.dumps'] = s.dumps; L['json.loads'] = s.loads
        L['importlib.import_module'] = lambda E, a, k: ModVal(a[0])
        L['base64.b64encode'] = s.b64; L['base64.b64decode'] = s.unb64
        E.opq_methods[('b64', 'decode')] = lambda E, o, a, k: LibObj('b64str', o.args)
        E.opq_methods[('b64str', 'encode')] = lambda E, o, a, k: LibObj('b64', o.args)
        L['numpy.frombuffer'] = s.frombuffer
        E.opq_methods[('flat', 'reshape')] = s.reshape
        E.opq_methods[('flat', 'astype')] = lambda E, o, a, k: bad(E, E.ctx.func + ': the type of an array is changed')
        L['pandas.DataFrame'] = s.frame
        L[SKY] = s.sky
        def conv(name):
            def f(E, a, k):
                if name == 'str' and a and isinstance(a[0], Lib) and a[0].name.startswith('numpy.'): return a[0].name.split('.')[-1]
                if a and isinstance(a[0], LibObj) and a[0].name in ('numpy.integer', 'numpy.floating'): v = a[0].args[0]; return R(v) if name == 'float' else v if z3.is_int(v) else E.libtrunc(v)
                L.pop(name)
                try: return pylib.call(E, name, a, k)
                finally: L[name] = f
            L[name] = f
        for n in ('str', 'int', 'float'): conv(n)
        E.libtrunc = lambda v: pylib.trunc(E, v)
        E.opq_methods[('numpy.integer', 'item')] = E.opq_methods[('numpy.floating', 'item')] = lambda E, o, a, k: o.args[0]
        def unit(E, op, a, b):
            if op == 'Mult':
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, Lib) and y.name in ('astropy.units.deg', 'astropy.units.degree') and E.isnum(x): return LibObj('degrees', [R(E.num(x))])
        E.binhook = unit
        E.contracts['riptide.serialization.get_riptide_version'] = lambda E, b: s.version
        s.version = Opq('str', z3.Int('version_of_the_library'))
        def has(E, d, k):
            if k in ('__type__', '__version__'): return z3.BoolVal(False)       # metadata do not use the reserved keys
            raise Unsupported('key %r' % (k,))
        E.dicthooks = {'has': has}
        E.opq_methods[('textfile', 'write')] = s.write
        E.opq_methods[('textfile', 'read')] = lambda E, o, a, k: s.read(E, o)
        def enter(kind, v):
            if kind == 'enter' and isinstance(v, LibObj) and v.name == 'textfile': return v
        E.libhook = enter
        def op(E, a, k):
            m = a[1] if len(a) > 1 else k.get('mode', 'r')
            if m not in ('r', 'w', 'rt', 'wt'): raise Unsupported('open with mode %r' % (m,))
            if m[0] == 'w': s.disk = None
            return LibObj('textfile', [a[0], m[0]])
        L['open'] = op
        s.disk = None
    def write(s, E, o, a, k):
        if o.args[1] != 'w' or s.disk is not None or not (isinstance(a[0], LibObj) and a[0].name == 'json'): raise Unsupported('writing to the file')
        s.disk = (o.args[0], a[0]); return None
    def read(s, E, o):
        if o.args[1] != 'r' or s.disk is None: raise Unsupported('reading the file')
        eq(E, E.ctx.func + ': the file of the given name is read', o.args[0], s.disk[0])
        return s.disk[1]
    def dumps(s, E, a, k):
        cls = k.get('cls')
        if not isinstance(cls, PyClass) or len(a) != 1 or set(k) - {'cls', 'indent', 'sort_keys', 'separators', 'ensure_ascii'}: raise Unsupported('json.dumps with these options')
        enc = ORef(E.new(StructVal(cls.name, {'__class__': cls})))
        def go(v):
            v = E.thaw(v)
            if v is None or isinstance(v, (bool, int, float, str)) or z3.is_expr(v) or isinstance(v, Opq) and v.cls in ('str', 'value'): return v
            if isinstance(v, LibObj) and v.name == 'b64str': return v
            if isinstance(v, LST):
                if not v.concrete(): raise Unsupported('list of unknown length in JSON')
                return LST.of([go(x) for x in v.items()])
            if isinstance(v, tuple): return LST.of([go(x) for x in v])
            if isinstance(v, ORef) and '__dict__' in E.cells[v.id].f: v = E.cells[v.id].f['__dict__']
            if isinstance(v, DCT):
                if any(not isinstance(x, str) for x in v.ent): raise Unsupported('keys that are not strings')
                return DCT(newoid(), {x: go(y) for x, y in v.ent.items()}, v.rest)
            return go(E.call(E.getattr(enc, 'default'), [v], {}))
        return LibObj('json', [go(a[0])])
    def loads(s, E, a, k):
        if len(a) != 1 or set(k) != {'object_hook'} or not (isinstance(a[0], LibObj) and a[0].name == 'json'): raise Unsupported('json.loads with these options')
        def go(v):
            if isinstance(v, LST): return LST.of([go(x) for x in v.items()])
            if isinstance(v, DCT): return E.call(k['object_hook'], [DCT(newoid(), {x: go(y) for x, y in v.ent.items()}, v.rest)], {})
            return v
        return go(a[0].args[0])
    def b64(s, E, a, k):
        b = a[0]
        if isinstance(b, ND): b = LibObj('buffer', [b])
        if not (isinstance(b, LibObj) and b.name == 'buffer') or k or len(a) > 1: raise Unsupported('base64 of this')
        E.ctx.oblige(E.ctx.func + ': the buffer that is encoded is contiguous', z3.BoolVal(b.args[0].imap is None), 'pre')
        return LibObj('b64', b.args)
    def unb64(s, E, a, k):
        if not (isinstance(a[0], LibObj) and a[0].name in ('b64', 'b64str')): raise Unsupported('base64 decoding of this')
        return LibObj('rawbytes', a[0].args)
    def frombuffer(s, E, a, k):
        dt = k.get('dtype', a[1] if len(a) > 1 else Lib('numpy.float64'))
        if not (isinstance(a[0], LibObj) and a[0].name == 'rawbytes') or set(k) - {'dtype'} or len(a) > 2: raise Unsupported('numpy.frombuffer of this')
        E.ctx.oblige(E.ctx.func + ': the bytes are read with the type they were written with', z3.BoolVal(pylib.dtname(dt) == E.dtype(a[0].args[0])), 'post')
        return LibObj('flat', a[0].args)
    def reshape(s, E, o, a, k):
        x = o.args[0]
        sh = a[0] if len(a) == 1 and isinstance(a[0], (LST, tuple)) else LST.of(list(a))
        sh = list(sh) if isinstance(sh, tuple) else sh.items()
        if k: raise Unsupported('reshape with options')
        ok = len(sh) == len(x.shape)
        E.ctx.oblige(E.ctx.func + ': the array has its shape', z3.And(z3.BoolVal(ok), *[E.num(p) == q for p, q in zip(sh, x.shape)]), 'post')
        return E.arr(list(x.shape), E.reader(x), E.dtype(x))
    def frame(s, E, a, k):
        v = a[0] if a else k.get('data'); c = k.get('columns', a[2] if len(a) > 2 else None)
        if not isinstance(v, ND) or c is None or set(k) - {'data', 'columns'} or len(a) > 1: raise Unsupported('table of this')
        return LibObj('pandas.DataFrame', [], {'values': v, 'columns': c})
    def sky(s, E, a, k):
        ra, de = (list(a) + [None, None])[:2]; ra, de = k.get('ra', ra), k.get('dec', de)
        if k.get('unit') is not None:
            u = k['unit']; u = u.items() if isinstance(u, LST) else list(u) if isinstance(u, tuple) else [u]
            if not all(isinstance(x, Lib) and x.name in ('astropy.units.deg', 'astropy.units.degree') or x in ('deg', 'degree') for x in u): raise Unsupported('unit of a sky coordinate')
            ra, de = (LibObj('degrees', [R(E.num(x))]) if E.isnum(x) else x for x in (ra, de))
        if not all(isinstance(x, LibObj) and x.name == 'degrees' for x in (ra, de)) or set(k) - {'ra', 'dec', 'unit', 'frame'} or k.get('frame', 'icrs') != 'icrs': raise Unsupported('sky coordinate given in another way')
        return LibObj('SkyCoord.icrs', [ra.args[0], de.args[0]])
def loaded(E, name, a, b, o):
    """obligations: the loaded value b is the saved value a"""
    b = E.thaw(b)
    if a is None or isinstance(a, (bool, int, float, str)) or z3.is_expr(a) or isinstance(a, Opq): return eq(E, name, b, a)
    if isinstance(a, ND):
        if not isinstance(b, ND) or len(b.shape) != len(a.shape): return bad(E, name + ' is an array of the same dimension')
        r = E.reader(a)
        if a.shape: arr_post(E, name, b, list(a.shape), lambda *i: r(*i), E.dtype(a))
        else: eq(E, name, E.reader(b)(), r()); E.ctx.oblige(name + ': type', z3.BoolVal(E.dtype(a) == E.dtype(b)), 'post')
        return
    if isinstance(a, LibObj) and a.name in ('numpy.integer', 'numpy.floating'):
        E.ctx.oblige(name + ': a plain number of the same kind', z3.BoolVal(z3.is_expr(b) and b.sort() == a.args[0].sort()), 'post')
        return eq(E, name, b, a.args[0])
    if isinstance(a, LibObj) and a.name == SKY:
        if not (isinstance(b, LibObj) and b.name == 'SkyCoord.icrs'): return bad(E, name + ' is a sky coordinate')
        E.ctx.oblige(name + ': position', z3.And(b.args[0] == a.kw['icrs'].kw['ra'].kw['deg'], b.args[1] == a.kw['icrs'].kw['dec'].kw['deg']), 'post'); return
    if isinstance(a, LibObj) and a.name == 'pandas.DataFrame':
        if not (isinstance(b, LibObj) and b.name == a.name): return bad(E, name + ' is a table')
        loaded(E, name + ': values', a.kw['values'], b.kw['values'], o); loaded(E, name + ': columns', a.kw['columns'], b.kw['columns'], o); return
    if isinstance(a, (LST, tuple)):
        x = a.items() if isinstance(a, LST) else list(a)
        if not isinstance(b, LST) or not b.concrete() or len(b.items()) != len(x): return bad(E, name + ' is a list of the same length')
        for i, (p, q) in enumerate(zip(x, b.items())): loaded(E, '%s[%d]' % (name, i), p, q, o)
        return
    if isinstance(a, ORef) and '__dict__' not in E.cells[a.id].f:
        if not isinstance(b, ORef) or E.cells[b.id].tname != E.cells[a.id].tname: return bad(E, name + ': an object of the same class')
        fa, fb = E.cells[a.id].f, E.cells[b.id].f
        for k in fa:
            if k not in ('__class__', 'version'):
                if k not in fb: bad(E, '%s has attribute %s' % (name, k))
                else: loaded(E, '%s.%s' % (name, k), fa[k], fb[k], o)
        return eq(E, name + ': version', fb.get('version'), fa.get('version', o.j.version))
    da = E.cells[a.id].f['__dict__'] if isinstance(a, ORef) else a
    db = E.cells[b.id].f['__dict__'] if isinstance(b, ORef) and '__dict__' in E.cells[b.id].f else b
    if not isinstance(da, DCT) or not isinstance(db, DCT): return bad(E, name + ' is a dictionary')
    E.ctx.oblige(name + ': keys', z3.BoolVal(set(da.ent) == set(db.ent) and same(da.rest, db.rest)), 'post')
    for k in da.ent:
        if k in db.ent: loaded(E, '%s[%r]' % (name, k), da.ent[k], db.ent[k], o)
    if isinstance(a, ORef): pass
@spec
class SaveLoad(PySpec):
    key = 'riptide.serialization.load_json'
    cases = ['array of dimension %d' % i for i in range(5)] + ['table', 'sky coordinate', 'numpy integer', 'numpy floating', 'plain values', 'time series', 'time series with a version', 'periodogram', 'candidate', 'candidate with a version', 'nested']
    has_effect = False
    def prepare(s, E): s.j = Json(); s.j.install(E)
    def value(s, E, case):
        arr = lambda d, dt='float32': view(sarr(E, 'x', [nat(E, 'n', 0) for _ in range(d)], 'Real' if dt[0] == 'f' else 'Int', dt))
        sky = lambda: mk_sky(E, E.ctx.fresh('sky'))
        def vers(o): E.setattr(o, 'version', Opq('str', E.ctx.fresh('stored_version'))); E.ctx.assume(E.cells[o.id].f['version'].id != E.strcode('')); return o
        if case.startswith('array'): return arr(int(case[-1]), 'float32' if case[-1] in '02' else 'int64')
        if case == 'table': return mk_frame(E, ['period', 'snr', 'dm'])
        if case == 'sky coordinate': return sky()
        if case == 'numpy integer': return LibObj('numpy.integer', [E.ctx.fresh('v')])
        if case == 'numpy floating': return LibObj('numpy.floating', [E.ctx.fresh('v', 'Real')])
        if case == 'plain values': return LST.of([None, True, E.ctx.fresh('i'), E.ctx.fresh('x', 'Real'), Opq('str', E.ctx.fresh('t')), E.ctx.fresh('b', 'Bool'), 'text', LST.of([]), dct({})])
        if case.startswith('time series'): o = mk_ts(E, skycoord=sky()); return vers(o) if 'version' in case else o
        if case == 'periodogram':
            n, k = nat(E, 'n', 0), nat(E, 'k', 0)
            return mk_obj(E, 'riptide.periodogram', 'Periodogram', widths=arr(1, 'int64'), periods=arr(1, 'float64'), foldbins=arr(1, 'uint32'), snrs=arr(2), metadata=mk_metadata(E, skycoord=sky()))
        if case.startswith('candidate'):
            o = mk_obj(E, 'riptide.candidate', 'Candidate', params=dct({'period': E.ctx.fresh('period', 'Real'), 'snr': LibObj('numpy.floating', [E.ctx.fresh('snr', 'Real')]), 'width': LibObj('numpy.integer', [E.ctx.fresh('width')])}), tsmeta=mk_metadata(E, skycoord=sky()), peaks=mk_frame(E, ['period', 'snr']), subints=arr(2))
            return vers(o) if 'version' in case else o
        return LST.of([dct({'a': s.value(E, 'time series'), 'b': LST.of([s.value(E, 'candidate'), s.value(E, 'table')]), 'data': arr(1), 'shape': dct({'x y': sky()})}), s.value(E, 'periodogram'), s.value(E, 'plain values'), LST.of([s.value(E, 'time series with a version'), LibObj('numpy.integer', [E.ctx.fresh('v')])])])
    def setup(s, E, case):
        s.fn = Opq('str', E.ctx.fresh('fname')); s.x = s.value(E, case)
        m = load(E.repo, 'riptide.serialization')
        s.before = E.snap()
        try: E.call(E.modval(m, 'save_json'), [s.fn, s.x], {'indent': I(2)} if case == 'nested' else {})
        except CThrow as e:
            bad(E, '%s: saving raises no exception (%s)' % (E.ctx.func, e.etype)); raise Infeasible()
        return [s.fn], {}
    def post(s, E, a, r, s0, case):
        loaded(E, s.label + ': the loaded value', s.x, r, s)
