"""Models of the builtins and of the library functions the package uses.

Every model is a transfer function on abstract values.  A call that has no model makes its result
opaque ("unmodelled"); rules never report a violation that rests on an opaque value.
"""
import builtins as _bi
import ast
import posixpath
import re
from .interp import *
from .terms import *
from .arrays import *

EXC = {'Exception', 'BaseException', 'ValueError', 'TypeError', 'RuntimeError', 'KeyError', 'IndexError',
       'AttributeError', 'NameError', 'NotImplementedError', 'ArithmeticError', 'ZeroDivisionError', 'LookupError',
       'OSError', 'IOError', 'FileNotFoundError', 'AssertionError', 'StopIteration', 'UnboundLocalError',
       'ImportError', 'ModuleNotFoundError', 'UserWarning', 'RuntimeWarning', 'Warning', 'DeprecationWarning',
       'PermissionError', 'EOFError', 'OverflowError', 'FloatingPointError', 'FileExistsError', 'IsADirectoryError',
       'NotADirectoryError', 'KeyboardInterrupt', 'SystemExit', 'MemoryError', 'RecursionError', 'UnicodeDecodeError',
       'UnicodeError', 'SyntaxError', 'TimeoutError', 'FutureWarning'}


def exc_bases(name):
    c = getattr(_bi, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [x.__name__ for x in c.__mro__]
    return [name, 'Exception', 'BaseException', 'object']


CANON = {
    'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'numpy.concat': 'numpy.concatenate',
    'numpy.trapz': 'scipy.integrate.trapezoid', 'numpy.trapezoid': 'scipy.integrate.trapezoid',
    'scipy.integrate.trapz': 'scipy.integrate.trapezoid', 'scipy.integrate.simps': 'scipy.integrate.simpson',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.fmax': 'numpy.maximum', 'numpy.fmin': 'numpy.minimum',
    'numpy.float_power': 'numpy.power', 'numpy.pow': 'numpy.power', 'numpy.true_divide': 'numpy.divide',
    'numpy.invert': 'numpy.logical_not', 'numpy.bitwise_and': 'numpy.logical_and', 'numpy.bitwise_or': 'numpy.logical_or',
    'numpy.permute_dims': 'numpy.transpose', 'math.log': 'numpy.log', 'math.log10': 'numpy.log10', 'math.sqrt': 'numpy.sqrt',
    'math.exp': 'numpy.exp', 'math.sinh': 'numpy.sinh', 'math.cosh': 'numpy.cosh', 'math.fabs': 'numpy.abs',
    'math.pow': 'numpy.power', 'math.isnan': 'numpy.isnan', 'math.isfinite': 'numpy.isfinite',
    'numpy.random.standard_normal': 'numpy.random.randn', 'numpy.lib.scimath.sqrt': 'numpy.sqrt',
    'numpy.asanyarray': 'numpy.asarray', 'numpy.ascontiguousarray': 'numpy.asarray', 'os.linesep': 'os.linesep',
    'numpy.vecdot': 'numpy.vecdot', 'numpy.bool_': 'numpy.bool', 'numpy.single': 'numpy.float32',
    'numpy.double': 'numpy.float64', 'numpy.float_': 'numpy.float64', 'numpy.str': 'numpy.str_', 'numpy.unicode_': 'numpy.str_',
    'scipy.interpolate._interpolate.interp1d': 'scipy.interpolate.interp1d',
}

DTYPES = {'numpy.float32': 'f4', 'numpy.float64': 'f8', 'numpy.float16': 'f4', 'numpy.longdouble': 'f8',
          'builtins.float': 'f8', 'numpy.floating': 'f8',
          'numpy.int32': 'i', 'numpy.int64': 'i', 'numpy.int16': 'i', 'numpy.int8': 'i', 'numpy.int_': 'i',
          'numpy.intp': 'i', 'numpy.uint32': 'i', 'numpy.uint64': 'i', 'numpy.uint8': 'i', 'numpy.uint16': 'i',
          'builtins.int': 'i', 'numpy.bool': 'b', 'builtins.bool': 'b', 'numpy.str_': 's', 'builtins.str': 's',
          'numpy.bytes_': 's'}
DTSTR = {'f4': 'f4', 'f8': 'f8', 'f': 'f4', 'd': 'f8', 'float32': 'f4', 'float64': 'f8', 'float': 'f8', 'i4': 'i', 'i8': 'i',
         'i2': 'i', 'int': 'i', 'int32': 'i', 'int64': 'i', 'bool': 'b', '?': 'b', 'u4': 'i', 'u8': 'i', '>f4': 'f4', '<f4': 'f4',
         '>f8': 'f8', '<f8': 'f8', 'str': 's', 'U': 's', 'S': 's', 'int16': 'i', '=f4': 'f4', 'b': 'i'}

PURE_NOOP = ('matplotlib', 'logging', 'warnings', 'tqdm')

HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


class ResCell(object):
    """library resource: kind, data, condition under which it has been closed"""
    __slots__ = ('kind', 'd', 'closed', 'origin', 'where')

    def __init__(self, kind, d, closed=FALSE, where='?', origin=None):
        self.kind, self.d, self.closed, self.where, self.origin = kind, d, closed, where, origin

    def with_(self, **kw):
        r = ResCell(self.kind, self.d, self.closed, self.where, self.origin)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def merge_with(self, it, c, o):
        d = self.d
        if self.d.keys() == o.d.keys():
            d = {}
            for k in self.d:
                x, y = self.d[k], o.d[k]
                if x is y or x == y:
                    d[k] = x
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    d[k] = tuple(p if p is q else it.merge_val(c, p, q) for p, q in zip(x, y))
                elif isinstance(x, tuple) and isinstance(y, tuple):
                    n = min(len(x), len(y))
                    d[k] = tuple(p if p is q else it.merge_val(c, p, q) for p, q in zip(x[:n], y[:n])) + \
                        tuple(CondItem(c, v) for v in x[n:]) + tuple(CondItem(Not(c), v) for v in y[n:])
                else:
                    d[k] = it.merge_val(c, x, y)
        return ResCell(self.kind, d, ite(c, self.closed, o.closed), self.where, self.origin)


def bindargs(names, args, kw, required=0, allow=()):
    """positional/keyword binding for a library function; None for what is not given"""
    out = {n: NOTGIVEN for n in names}
    if len(args) > len(names):
        raise Unmodelled('library call arguments')
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kw.items():
        if k in out:
            out[k] = v
        elif k in allow:
            pass
        else:
            raise Unmodelled('library keyword ' + k)
    return out


class _NG(Val):
    def __repr__(self):
        return 'NOTGIVEN'


NOTGIVEN = _NG()


def given(v):
    return v is not NOTGIVEN and v is not None


def pconst(it, v, what='value'):
    """concrete Python number from an abstract scalar"""
    if isinstance(v, Arr) and v.ndim == 0:
        b = v.body
        if is_bool(b):
            b = restrict(b, it.pc)
            if b is TRUE:
                return True
            if b is FALSE:
                return False
            raise Unmodelled('symbolic ' + what)
        c = const(b)
        if c is not None:
            return int(c) if c.denominator == 1 else float(c)
    raise Unmodelled('symbolic ' + what)


def axis_arg(it, v):
    if v is NOTGIVEN or v is None:
        return None
    if isinstance(v, Tup):
        return [int(pconst(it, x, 'axis')) for x in v.items]
    return int(pconst(it, v, 'axis'))


def dims_of(it, v):
    """shape argument -> list of terms"""
    if isinstance(v, Tup):
        return [it.arr(x).body for x in v.items]
    if isinstance(v, Ref):
        c = it.heap.get(v.cid)
        if isinstance(c, ListCell):
            return [it.arr(x).body for x in c.items]
        a = it.arr(v)
        if a.ndim == 1 and const(a.axes[0].dim) is not None:
            return [a.at1(num(k)) for k in range(int(const(a.axes[0].dim)))]
        raise Unmodelled('shape')
    a = it.arr(v)
    if a.ndim == 0:
        return [a.body]
    raise Unmodelled('shape')


def axes_from_dims(it, dims):
    return [S(d) for d in dims]


class FieldName(str):
    """name of a string field of limited width"""
    width = None


ARGSORT = ast.parse('numpy.argsort(x)').body[0].value


class LibModel(object):
    def __init__(self):
        self.names = None

    # ------------------------------------------------------------ basics
    def pkgfile(self, it, path):
        i = path.rfind('/kcorrect/')
        return '<PKG>' + path[i + len('/kcorrect'):]

    def is_exception(self, name):
        return name.split('.')[-1] in EXC or name.endswith('Error') or name.endswith('Warning')

    def is_exception_class(self, cls):
        return any(isinstance(b, Ext) and self.is_exception(b.name) for b in cls.mro())

    def exc_match(self, exc, tv):
        if isinstance(tv, Tup):
            r = [self.exc_match(exc, x) for x in tv.items]
            return 'broad' if 'broad' in r else any(r)
        if isinstance(tv, Ext):
            n = tv.name.split('.')[-1]
            if n in ('Exception', 'BaseException'):
                return 'broad'
            if exc.name == '?':
                return False
            return n in exc_bases(exc.name)
        if isinstance(tv, ClassV):
            return tv.name == exc.name
        return False

    def builtin(self, name):
        if name in ('True', 'False', 'None'):
            return None
        if hasattr(_bi, name):
            return Ext('builtins.' + name)
        return None

    def truth(self, it, v):
        if isinstance(v, (Ext, ModV, ClassV, FuncV, BoundM, LibM, Lib)):
            return TRUE
        if isinstance(v, SymStr):
            return TRUE
        if isinstance(v, RangeV):
            return gt0(v.count)
        if isinstance(v, SeqV):
            return gt0(v.count)
        raise Unmodelled('truth of %r' % (v,))

    # ------------------------------------------------------------ with
    def enter(self, it, v, node):
        if isinstance(v, Lib) and v.kind == 'context':
            return v.d.get('value')
        return v

    def exit(self, it, v, node, heaps):
        if isinstance(v, Ref):
            for h in heaps:
                c = h.get(v.cid)
                if isinstance(c, ResCell):
                    h[v.cid] = c.with_(closed=TRUE)
                    self.flush_heap(it, h, v.cid)

    def flush_heap(self, it, h, cid):
        c = h[cid]
        if c.kind == 'hdul' and c.d.get('mode') in ('update', 'append') and c.d.get('filename') is not None:
            old = it.heap
            it.heap = h
            try:
                self.fs_write(it, c.d['filename'], self.snapshot(it, c.d['hdus']))
            finally:
                it.heap = old

    # ------------------------------------------------------------ strings
    def strterm(self, v):
        if isinstance(v, str):
            return atomP(raw_atom('str', v))
        if isinstance(v, SymStr):
            return v.t
        if isinstance(v, Arr) and v.dt == 's' and v.ndim == 0:
            return v.body
        raise Unmodelled('string')

    def str_concat(self, it, parts):
        flat = []

        def put(x):
            if isinstance(x, str):
                if not x:
                    return
                if flat and isinstance(flat[-1], str):
                    flat[-1] = flat[-1] + x
                else:
                    flat.append(x)
            else:
                flat.append(x)
        for p in parts:
            p = it.resolve(p)
            if isinstance(p, Phi):
                return it.on_many([it.resolve(q) for q in parts], lambda *ps: self.str_concat(it, list(ps)))
            if isinstance(p, str):
                put(p)
            elif isinstance(p, SymStr):
                a = single_atom(p.t) if isinstance(p.t, P) else None
                if a is not None and a.op == 'strcat':
                    for q in a.args:
                        qa = single_atom(q)
                        put(qa.args[0] if qa is not None and qa.op == 'str' else q)
                else:
                    put(p.t)
            elif isinstance(p, Arr) and p.ndim == 0 and p.dt == 's':
                put(p.body)
            elif isinstance(p, Arr) and p.ndim == 0:
                c = const(p.body) if isinstance(p.body, P) else None
                if c is not None and p.py and c.denominator == 1 and p.dt == 'i':
                    put(str(int(c)))
                else:
                    put(atomP(raw_atom('tostr', b2n(p.body))))
            else:
                it.counter += 1
                put(atomP(raw_atom('opaque', 'str', it.counter)))
        if not flat:
            return ''
        if len(flat) == 1:
            return flat[0] if isinstance(flat[0], str) else SymStr(flat[0])
        return SymStr(atomP(raw_atom('strcat', *[atomP(raw_atom('str', x)) if isinstance(x, str) else x for x in flat])))

    def binop(self, it, op, x, y, node):
        return None

    def contains(self, it, c, x, node):
        if isinstance(c, Lib) and c.kind == 'registry':
            it.event('reg-in', node, key=x)
            return it.assume_flag(raw_atom('inreg', it.keyterm(x)))
        if isinstance(c, Ref) and isinstance(it.heap.get(c.cid), ResCell) and it.heap[c.cid].kind == 'hdul':
            r = FALSE
            for cond, h in self.find_hdu(it, it.heap[c.cid], x):
                r = Or(r, cond)
            return r
        if isinstance(c, SymStr) or isinstance(x, SymStr):
            if isinstance(c, (str, SymStr)):
                return it.assume_flag(raw_atom('substr', self.strterm(x), self.strterm(c)))
        if isinstance(c, LibM) and c.name == 'keys':
            return it.contains(c.recv, x, node)
        return None

    # ------------------------------------------------------------ attributes of external names
    def ext_attr(self, it, v, name, node):
        full = v.name + '.' + name
        if full == 'numpy.newaxis':
            return None
        if full in ('numpy.pi', 'math.pi'):
            return scalar(atomP(raw_atom('namedconst', 'pi')), 'f8', True)
        if full in ('numpy.e', 'math.e'):
            return scalar(expE(ONE), 'f8', True)
        if full in ('numpy.nan', 'math.nan', 'numpy.NaN'):
            return scalar(atomP(raw_atom('nan')), 'f8', True)
        if full in ('numpy.inf', 'math.inf'):
            return scalar(atomP(raw_atom('inf')), 'f8', True)
        if full.startswith('astropy.cosmology.') and name[:1].isupper() and name not in ('FlatLambdaCDM', 'LambdaCDM', 'FLRW'):
            return Lib('cosmo', name=name)
        if full == 'os.sep':
            return '/'
        return Ext(full)

    # ------------------------------------------------------------ attributes of values
    def val_attr(self, it, v, name, node):
        if isinstance(v, Arr):
            return self.arr_attr(it, v, v, name, node)
        if isinstance(v, (str, SymStr)):
            return LibM(v, name)
        if isinstance(v, Tup):
            return LibM(v, name)
        if isinstance(v, Lib):
            k = v.kind
            if k == 'interp' and name in ('x', 'y'):
                return it.mkarr(v.d[name])
            if k == 'quantity' and name == 'value':
                return it.mkarr(v.d['arr'])
            if k == 'hdu':
                if name in ('data', 'header', 'name'):
                    return v.d[name]
                return LibM(v, name)
            if k == 'respobj':
                return self.resp_attr(it, v, name, node)
            if k == 'dtype':
                if name == 'names' and v.d.get('fields') is not None:
                    return Tup([f[0] for f in v.d['fields']])
                if name in ('type',):
                    return v
                raise Unmodelled('dtype attribute')
            if k == 'strvec':
                return LibM(v, name)
            if k in v.d.get('attrs', {}):
                return v.d['attrs'][name]
            if k == 'finfo':
                it.counter += 1
                return scalar(atomP(raw_atom('finfo', name)), 'f8', True)
            return LibM(v, name)
        if isinstance(v, LibM):
            if isinstance(v.recv, Lib) and v.recv.kind == 'noopobj':
                return LibM(v.recv, name)
            raise Unmodelled('attribute of method')
        if isinstance(v, (FuncV, BoundM)):
            if name in ('__name__', '__doc__', '__qualname__'):
                return v.name if isinstance(v, FuncV) else v.func.name
            raise Unmodelled('function attribute')
        if isinstance(v, ExcV):
            return LibM(v, name)
        if isinstance(v, (RangeV, SeqV)):
            raise Unmodelled('attribute of sequence')
        raise Unmodelled('attribute %s of %r' % (name, v))

    def resp_attr(self, it, v, name, node):
        key = v.d['key']
        it.event('resp-attr', node, key=key, name=name)
        kt = it.keyterm(key)
        if name in ('solar_magnitude', 'vega2ab'):
            f = it.assume_flag(raw_atom('resp_none', name, kt))
            return it.merge_val(f, None, scalar(mk('resp', name, kt)))
        if name in ('lambda_eff', 'fwhm', 'fwhm_low', 'fwhm_high'):
            return scalar(mk('respP', name, kt))
        if name == 'project':
            return LibM(v, name)
        if name in ('wave', 'response'):
            n = mk('respn', kt)
            r = it.new(ArrCell(Arr([S(n)], mk('resparr', name, kt, atomP(IX('@0'))), 'f8'), 'response of the registry'))
            return r
        return Opq('response attribute')

    def arr_attr(self, it, v, a, name, node):
        """attributes of array-like values; v the value (Ref or Arr), a its content"""
        if name == 'shape':
            return Tup([scalar(ax.dim, 'i', True) for ax in a.axes])
        if name == 'ndim':
            return scalar(num(a.ndim), 'i', True)
        if name == 'size':
            return scalar(prod([ax.dim for ax in a.axes]), 'i', True)
        if name == 'dtype':
            return Lib('dtype', dt=a.dt, fields=None)
        if name == 'T':
            return self.t_transpose(it, v, None)
        if name == 'real':
            return v
        if a.ndim == 0 and a.dt == 's':
            return LibM(SymStr(a.body), name)
        if a.py and name not in ('real', 'item', 'is_integer', 'conjugate'):
            it.event('missing-attr', node, name=name, cls='Python number', cond=it.pc)
            it.do_raise(ExcV('AttributeError', (name,)), node)
            raise Dead()
        if name in ARRMETHODS:
            return LibM(v, name)
        if name in ('flags', 'base', 'nbytes', 'itemsize', 'flat', 'imag', 'strides', 'unit', 'value', 'mask', 'data'):
            raise Unmodelled('array attribute ' + name)
        it.event('missing-attr', node, name=name, cls='ndarray', cond=it.pc)
        it.do_raise(ExcV('AttributeError', (name,)), node)
        raise Dead()

    def cell_attr(self, it, v, c, name, node):
        if isinstance(c, (ArrCell, ViewCell)):
            if isinstance(c, ArrCell) and not isinstance(c.arr, Arr):
                if isinstance(c.arr, Opq):
                    return c.arr
                return it.on(c.arr, lambda a: self.cell_attr(it, it.new(ArrCell(a, c.origin)), ArrCell(a, c.origin), name, node)
                             if isinstance(a, Arr) else a)
            return self.arr_attr(it, v, it.arr(v), name, node)
        if isinstance(c, (ListCell, SymListCell, FiltCell)):
            if name in ('append', 'extend', 'index', 'copy', 'pop', 'insert', 'count', 'sort', 'reverse', 'remove', 'clear'):
                return LibM(v, name)
            it.event('missing-attr', node, name=name, cls='list', cond=it.pc)
            it.do_raise(ExcV('AttributeError', (name,)), node)
            raise Dead()
        if isinstance(c, DictCell):
            if name in ('get', 'keys', 'items', 'values', 'setdefault', 'update', 'pop', 'copy', 'clear', 'popitem'):
                return LibM(v, name)
            it.event('missing-attr', node, name=name, cls='dict', cond=it.pc)
            it.do_raise(ExcV('AttributeError', (name,)), node)
            raise Dead()
        if isinstance(c, RecCell):
            if name == 'dtype':
                return Lib('dtype', fields=tuple((k, f[0], f[1]) for k, f in c.fields.items()), dt=None)
            if name == 'shape':
                return Tup([scalar(c.n, 'i', True)])
            if name == 'size':
                return scalar(c.n, 'i', True)
            if name in ('names', 'columns'):
                raise Unmodelled('record attribute')
            if name in c.fields:
                return c.fields[name][2]
            return LibM(v, name)
        if isinstance(c, ResCell):
            if c.kind == 'asciitable' and name in ('colnames', 'columns'):
                raise Unmodelled('table columns')
            return LibM(v, name)
        raise Unmodelled('attribute of cell')

    def set_attr(self, it, x, name, v, node):
        if isinstance(x, Lib) or isinstance(x, Ref):
            if isinstance(x, Lib) and x.kind == 'respobj':
                it.event('resp-write', node, name=name, key=x.d['key'])
                return
            it.event('ext-setattr', node, name=name)
            if isinstance(x, Ref) and isinstance(it.heap.get(x.cid), (ArrCell, ViewCell)) and name == 'shape':
                raise Unmodelled('shape assignment')
            return
        raise Unmodelled('attribute store')

    # ------------------------------------------------------------ subscripts
    def subscript(self, it, o, k, node, tuple_index):
        if isinstance(o, SymStr):
            if isinstance(k, Lib) and k.kind == 'slice':
                st, en = k.d['start'], k.d['stop']
                if st is None and en is not None and k.d['step'] is None:
                    c = const(it.arr(en).body)
                    if c is not None and c < 0:
                        return SymStr(self.stem(o.t, int(-c)))
                raise Unmodelled('string slice')
            raise Unmodelled('string index')
        if isinstance(o, Lib):
            if o.kind == 'registry':
                if it.handlers and any(n in ('KeyError', 'LookupError', 'Exception') for n in it.handlers[-1].names):
                    it.do_raise(ExcV('KeyError', ('no such response',)), node, Not(flag(raw_atom('inreg', it.keyterm(k)))))
                it.event('reg-get', node, key=k)
                return Lib('respobj', key=k)
            if o.kind == 'recrow':
                return it.subscript(it.subscript(o.d['rec'], k, node), o.d['row'], node)
            if o.kind == 'match':
                return self.match_group(it, o, k)
            if o.kind == 'noopobj':
                return o
            if o.kind in ('interp', 'cosmo', 'dtype', 'respobj', 'quantity'):
                it.event('type-error', node, msg='subscript of %s' % o.kind)
                it.do_raise(ExcV('TypeError', ('not subscriptable',)), node)
                raise Dead()
            raise Unmodelled('subscript of ' + o.kind)
        if isinstance(o, (RangeV, SeqV)):
            n, elem = it.as_seq(o)
            if isinstance(k, Lib):
                raise Unmodelled('slice of sequence')
            return elem(normint(it.arr(k).body, n))
        if isinstance(o, Ref):
            c = it.heap.get(o.cid)
            if isinstance(c, SymListCell) and isinstance(k, Lib) and k.kind == 'slice':
                if k.d['step'] is not None:
                    raise Unmodelled('list slice step')
                sl = ('slice', None if k.d['start'] is None else it.arr(k.d['start']).body,
                      None if k.d['stop'] is None else it.arr(k.d['stop']).body, None)
                # lists known to be long enough (see the property's input assumptions)
                st = ZERO if sl[1] is None else normint(sl[1], c.count)
                en = c.count if sl[2] is None else normint(sl[2], c.count)
                elem = c.elem
                return it.new(SymListCell(sub(en, st), lambda q, st=st: elem(add(st, q)), None))
            if isinstance(c, ResCell):
                if c.kind == 'hdul':
                    return self.get_hdu(it, o, c, k, node)
                if c.kind == 'asciitable':
                    if isinstance(k, (str, SymStr)):
                        col = it.new(ArrCell(Arr([S(mk('nrows', c.d['file']))],
                                                 mk('col', c.d['file'], k if isinstance(k, str) else k.t, atomP(IX('@0'))), 'f8')))
                        for rows in c.d.get('rows', ()):
                            col = it.new(ArrCell(it.arr(it.subscript(col, rows, node))))
                        return col
                    if isinstance(k, Tup) or isinstance(k, Lib) and k.kind == 'slice' or isinstance(k, (Arr, Ref)) and it.arr(k).ndim == 1:
                        return it.new(ResCell('asciitable', dict(c.d, rows=c.d.get('rows', ()) + (it.arr(k) if isinstance(k, Ref) else k,)), FALSE, c.where))
                    raise Unmodelled('table row')
                if c.kind == 'table':
                    return it.subscript(c.d['data'], k, node)
            if isinstance(c, RecCell) and isinstance(k, Lib) and k.kind == 'slice':
                raise Unmodelled('record slice')
        return NotImplemented

    def store(self, it, o, k, v, node, tuple_index):
        if isinstance(o, Lib):
            if o.kind == 'registry':
                it.event('reg-set', node, key=k, value=v)
                return None
            if o.kind == 'recrow':
                f = it.subscript(o.d['rec'], k, node)
                it.store(f, o.d['row'], v, node)
                return None
            if o.kind in ('header', 'noopobj'):
                return None
            raise Unmodelled('store into ' + o.kind)
        if isinstance(o, (str, Tup, SymStr)):
            it.event('type-error', node, msg='item assignment on an immutable value')
            it.do_raise(ExcV('TypeError', ('item assignment',)), node)
            raise Dead()
        if isinstance(o, Ref) and isinstance(it.heap.get(o.cid), ResCell):
            c = it.heap[o.cid]
            if c.kind == 'table':
                rec = it.heap[c.d['data'].cid]
                if isinstance(k, str) and k not in rec.fields:
                    ADD_COLUMN(self, it, c.d["data"], k, v)
                    return None
                it.store(c.d['data'], k, v, node)
                return None
            raise Unmodelled('store into resource')
        return NotImplemented

    def symdict_get(self, it, sym, k, node):
        if sym == 'registry':
            return Lib('respobj', key=k)
        return Opq('unknown dictionary content')

    # ------------------------------------------------------------ FITS
    def find_hdu(self, it, c, k):
        """[(condition, hdu)] matching a name or a position"""
        hd = self.norm_hdus(it, c.d['hdus'])
        if isinstance(k, Arr):
            n = int(pconst(it, k, 'HDU number'))
            if any(isinstance(h, (CondItem, Phi)) for h in hd):
                raise Unmodelled('conditional HDUs')
            return [(TRUE, hd[n])] if -len(hd) <= n < len(hd) else []
        out = []
        hit = FALSE
        for h in hd:
            cond = TRUE
            if isinstance(h, CondItem):
                cond, h = h.c, h.v
            if isinstance(h, Phi):
                raise Unmodelled('conditional HDU')
            nm = h.d['name']
            if isinstance(nm, str) and isinstance(k, str):
                e = B(nm.upper() == k.upper())
            elif nm is None:
                e = FALSE
            else:
                e = it.py_eq(nm, k)
            cc = And(cond, e, Not(hit))
            if cc is FALSE:
                continue
            out.append((cc, h))
            hit = Or(hit, cc)
        return out

    def get_hdu(self, it, o, c, k, node):
        if isinstance(k, Lib):
            raise Unmodelled('HDU slice')
        it.event('fits-get', node, key=k, cid=o.cid, closed=c.closed)
        found = self.find_hdu(it, c, k)
        hit = Or(*[x for x, h in found]) if found else FALSE
        if hit is not TRUE:
            it.do_raise(ExcV('KeyError', (repr(k),)), node, Not(hit))
        r = found[-1][1]
        for cond, h in reversed(found[:-1]):
            r = it.merge_val(cond, h, r)
        return r

    def fs_key(self, it, filename):
        if isinstance(filename, str):
            return filename
        if isinstance(filename, SymStr):
            return filename
        raise Unmodelled('file name %r' % (filename,))

    def fs_cell(self, it):
        c = it.heap.get('fs')
        if c is None:
            c = DictCell()
            it.heap['fs'] = c
        return c

    def fs_write(self, it, filename, hdus, node=None):
        k = self.fs_key(it, filename)
        c = self.fs_cell(it)
        items = [(a, b) for a, b in c.items if not it.same_val(a, k)]
        items.append((k, Lib('fitsfile', hdus=hdus)))
        it.heap['fs'] = DictCell(items)

    def fs_read(self, it, filename):
        k = self.fs_key(it, filename)
        for a, b in self.fs_cell(it).items:
            if it.same_val(a, k):
                return b
        return None

    def freeze(self, it, data):
        """immutable snapshot of array or record data"""
        if data is None:
            return None
        if isinstance(data, Ref):
            c = it.heap.get(data.cid)
            if isinstance(c, RecCell):
                return Lib('frec', n=c.n, fields=tuple((k, f[0], f[1], it.arr(f[2])) for k, f in c.fields.items()))
            if isinstance(c, ResCell) and c.kind == 'table':
                return self.freeze(it, c.d['data'])
        if isinstance(data, Lib) and data.kind == 'frec':
            return data
        if isinstance(data, Opq):
            return data
        return it.arr(data)

    def thaw(self, it, v):
        if isinstance(v, Lib) and v.kind == 'frec':
            return it.new(RecCell(v.d['n'], {k: (dt, shp, it.new(ArrCell(a))) for k, dt, shp, a in v.d['fields']}))
        if isinstance(v, Arr):
            return it.new(ArrCell(v))
        return v

    def norm_hdus(self, it, hdus):
        """resolve joins of HDUs"""
        out = []

        def go(h, c):
            if isinstance(h, CondItem):
                go(h.v, And(c, h.c))
            elif isinstance(h, Phi):
                a, b = h.a, h.b
                if isinstance(a, Lib) and isinstance(b, Lib) and a.d['name'] == b.d['name'] and a.d['type'] == b.d['type']:
                    d = dict(a.d)
                    d['data'] = it.merge_val(h.c, a.d['data'], b.d['data'])
                    go(Lib(a.kind, **d), c)
                else:
                    go(a, And(c, h.c))
                    go(b, And(c, Not(h.c)))
            elif c is not FALSE:
                out.append(h if c is TRUE else CondItem(c, h))
        for h in hdus:
            go(h, TRUE)
        return tuple(out)

    def snapshot(self, it, hdus):
        out = []
        hdus = self.norm_hdus(it, hdus)
        for h in hdus:
            c = None
            if isinstance(h, CondItem):
                c, h = h.c, h.v
            if isinstance(h, Lib):
                h = Lib('fhdu', name=h.d['name'], type=h.d['type'], data=self.freeze(it, h.d['data']))
            out.append(h if c is None else CondItem(c, h))
        return tuple(out)

    def thaw_hdu(self, it, h):
        if isinstance(h, CondItem):
            return CondItem(h.c, self.thaw_hdu(it, h.v))
        if isinstance(h, Phi):
            return Phi(h.c, self.thaw_hdu(it, h.a), self.thaw_hdu(it, h.b))
        if isinstance(h, Opq):
            return h
        return Lib('hdu', name=h.d['name'], type=h.d['type'], data=self.thaw(it, h.d['data']), header=Lib('header'))

    # ------------------------------------------------------------ transposes and reshapes with views
    def t_transpose(self, it, v, perm):
        a = it.arr(v)
        if a.ndim < 2:
            return v
        if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), (ArrCell, ViewCell)):
            p = list(perm) if perm is not None else list(range(a.ndim))[::-1]
            inv = [p.index(q) for q in range(len(p))]
            return it.view(v, lambda b: transpose(b, p), lambda b, nv: transpose(nv, inv))
        return it.mkarr(transpose(a, perm))

    def t_reshape(self, it, v, dims):
        a = it.arr(v)
        r = reshape(a, dims)
        if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), (ArrCell, ViewCell)) and r.ndim and a.ndim:
            od = [ax.dim for ax in a.axes]
            return it.view(v, lambda b: reshape(b, dims), lambda b, nv: reshape(nv, od))
        return it.mkarr(r)

    def t_ravel(self, it, v):
        a = it.arr(v)
        if a.ndim == 1:
            return v
        return self.t_reshape(it, v, [num(-1)])

    def t_squeeze(self, it, v, axis=None):
        a = it.arr(v)
        r = squeeze(a, axis)
        if r.ndim == a.ndim:
            return v
        if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), (ArrCell, ViewCell)) and r.ndim:
            od = [ax.dim for ax in a.axes]
            return it.view(v, lambda b: squeeze(b, axis), lambda b, nv: reshape(nv, od))
        return it.mkarr(r)

    def copy_of(self, it, v, dt=None):
        a = it.arr(v)
        b = Arr(a.axes, cast(a.body, a.dt, dt) if dt else a.body, dt or a.dt)
        return it.mkarr(b)

    def cast_alias(self, it, v, dt):
        """np.float32(x), np.asarray(x, dtype): no copy when x already has the dtype"""
        if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), (ArrCell, ViewCell)):
            a = it.arr(v)
            if dt is None or a.dt == dt:
                return v
        a = it.arr(v)
        if dt is None:
            dt = a.dt
        if a.dt == 's' and dt != 's':
            a = Arr(a.axes, mk('parse', a.body), dt)
            return it.mkarr(a)
        return it.mkarr(Arr(a.axes, cast(a.body, a.dt, dt), dt))

    def dtype_of(self, it, v):
        """-> (dt, fields)"""
        if isinstance(v, Tup) and len(v.items) == 2 and not isinstance(v.items[0], (Tup, Ref)):
            dt, fields = self.dtype_of(it, v.items[0])
            if dt == 's':
                return dt, fields
            raise Unmodelled('dtype %r' % (v,))
        if v is NOTGIVEN or v is None:
            return None, None
        if isinstance(v, Ext):
            n = CANON.get(v.name, v.name)
            if n in DTYPES:
                return DTYPES[n], None
            if n == 'builtins.object':
                return 'O', None
            raise Unmodelled('dtype ' + v.name)
        if isinstance(v, str):
            if v in DTSTR:
                return DTSTR[v], None
            if v[:1] in 'US' or v[1:2] in 'US':
                return 's', None
            raise Unmodelled('dtype ' + v)
        if isinstance(v, Lib) and v.kind == 'dtype':
            return v.d.get('dt'), v.d.get('fields')
        if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), ListCell):
            return None, self.dtype_fields(it, v)
        raise Unmodelled('dtype %r' % (v,))

    def dtype_fields(self, it, v):
        out = []
        for f in it.concrete(v):
            if not isinstance(f, Tup) or not isinstance(f.items[0], str):
                raise Unmodelled('dtype field')
            dt, sub_ = self.dtype_of(it, f.items[1])
            if sub_ is not None or dt is None:
                raise Unmodelled('nested dtype')
            shp = ()
            nm = f.items[0]
            if dt == 's':
                w = self.str_width(it, f.items[1], f.items[2] if len(f.items) > 2 else None)
                if w is not None:
                    nm = FieldName(nm)
                    nm.width = w
            elif len(f.items) > 2:
                shp = tuple(dims_of(it, f.items[2]))
            out.append((nm, dt, shp))
        return tuple(out)

    def str_width(self, it, t, n=None):
        """number of characters a string type holds, None if it adapts"""
        if isinstance(t, str):
            m = re.fullmatch(r'[<>=|]?[USa](\d+)', t)
            return int(m.group(1)) if m else None
        if isinstance(t, Tup) and len(t.items) == 2:
            return self.str_width(it, t.items[0], t.items[1])
        if n is None:
            return None
        k = const(it.arr(n).body) if isinstance(n, Arr) else None
        return int(k) if k is not None else None

    # ------------------------------------------------------------ regular names
    def stem(self, t, n):
        return mk('strhead', t, n)

    def match_group(self, it, o, k):
        n = int(pconst(it, k, 'group'))
        if o.d.get('groups'):
            return o.d['groups'][n]
        return SymStr(mk('regroup', o.d['pat'], n, o.d['s'])) if not (o.d.get('stem') and n == 1) else \
            SymStr(self.stem(o.d['s'], o.d['stem']))

    # ------------------------------------------------------------ calls
    def call(self, it, f, args, kw, node):
        if isinstance(f, Ext):
            n = CANON.get(f.name, f.name)
            if n.split('.')[0] in PURE_NOOP:
                return Lib('noopobj')
            if n == 'builtins.super':
                return self.b_super(it, args, node)
            if n in DTYPES and n.split('.')[0] == 'numpy':
                return it.on(args[0], lambda v: self.np_cast(it, v, DTYPES[n], node)) if args else \
                    scalar(ZERO, DTYPES[n])
            h = HANDLERS.get(n)
            if self.is_exception(n) and h is None:
                return ExcV(n.split('.')[-1], tuple(args), node)
            it.event('extcall', node, name=n, nargs=len(args), kw=sorted(kw))
            if h is None:
                self.havoc_call(it, n, args, kw)
                return it.unmod('call of ' + n, node)
            fn = getattr(node, 'func', None)
            if (fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)) != f.name.split('.')[-1]:
                # called under another name: handlers look at the name of the function
                node = ast.copy_location(ast.Call(func=ast.Attribute(value=ast.Name(id='lib', ctx=ast.Load()), attr=f.name.split('.')[-1], ctx=ast.Load()),
                                                  args=[], keywords=[]), node)
            keys = list(kw)
            return it.on_many(list(args) + [kw[k] for k in keys],
                              lambda *vs: self.guard(it, h, vs[:len(args)], dict(zip(keys, vs[len(args):])), node, n))
        if isinstance(f, LibM):
            keys = list(kw)
            return it.on_many([f.recv] + list(args) + [kw[k] for k in keys],
                              lambda r, *vs: self.method(it, r, f.name, list(vs[:len(args)]),
                                                         dict(zip(keys, vs[len(args):])), node))
        if isinstance(f, Lib):
            if f.kind == 'interp':
                v = args[0] if args else kw.get('x')
                return it.on(v, lambda w: self.call_interp(it, f, w, node))
            if f.kind == 'partial':
                return it.call(f.d['f'], list(f.d['args']) + list(args), dict(f.d['kw'], **kw), node)
            if f.kind in ('noopobj',):
                return f
            if f.kind == 'dtype':
                return self.np_cast(it, args[0], f.d['dt'], node)
            if f.kind in ('cosmo', 'respobj', 'registry', 'hdu', 'quantity', 'match', 'regex'):
                it.event('type-error', node, msg='call of a %s object' % f.kind)
                it.do_raise(ExcV('TypeError', ('not callable',)), node)
                raise Dead()
        if isinstance(f, Ref):
            c = it.heap.get(f.cid)
            if isinstance(c, (ArrCell, ViewCell, ListCell, SymListCell, DictCell)):
                it.event('type-error', node, msg='call of a non-callable')
                it.do_raise(ExcV('TypeError', ('not callable',)), node)
                raise Dead()
        return it.unmod('call of %r' % (f,), node)

    def guard(self, it, h, args, kw, node, n):
        for v in list(args) + list(kw.values()):
            if isinstance(v, Opq):
                self.havoc_call(it, n, args, kw)
                return it.unmod('library call with unknown argument (%s)' % n, node)
        try:
            return h(self, it, list(args), kw, node)
        except Unmodelled:
            self.havoc_call(it, n, args, kw)
            raise

    MUTATING = ('numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal',
                'numpy.random.shuffle', 'numpy.add.at', 'numpy.put_along_axis')

    def havoc_call(self, it, n, args, kw):
        out = kw.get('out')
        if isinstance(out, Ref):
            it.mutate_check(out.cid, None)
            it.havoc(out)
        if n in self.MUTATING and args and isinstance(args[0], Ref):
            it.mutate_check(args[0].cid, None)
            it.havoc(args[0])
        if not n.split('.')[0] in ('numpy', 'scipy', 'builtins', 'math', 'os', 're', 'astropy'):
            for a in args:
                if isinstance(a, Ref):
                    it.havoc(a)

    def b_super(self, it, args, node):
        fr = it.frames[-1]
        if args:
            return SuperV(args[0], args[1])
        f = fr
        return SuperV(f.cls, f.self_)

    def np_cast(self, it, v, dt, node):
        if isinstance(v, Opq):
            return v
        if v is None:
            # np.float32(None) is nan
            return scalar(atomP(raw_atom('nan')), dt)
        if isinstance(v, str):
            try:
                return scalar(num(float(v)) if dt != 'i' else num(int(v)), dt)
            except ValueError:
                raise Unmodelled('cast of a string')
        if isinstance(v, SymStr):
            return scalar(mk('parse', v.t), dt)
        if isinstance(v, Lib) and v.kind == 'quantity':
            return it.mkarr(v.d['arr'])
        r = self.cast_alias(it, v, dt)
        if isinstance(r, Arr):
            r = Arr(r.axes, r.body, dt)
        return r

    # ---- interpolation objects
    def call_interp(self, it, f, w, node):
        if isinstance(w, Opq):
            return w
        wa = it.arr(w)
        X, Y, ax = f.d['x'], f.d['y'], f.d['axis']
        kind, mode = f.d['opts'][:2]
        n = X.axes[0].dim
        if mode == 'error':
            x0, x1 = X.at1(ZERO), X.at1(sub(n, ONE))
            v0 = fresh_ix()
            lx = mklam([v0], X.at1(atomP(v0)))
            out = ewise(lambda q: FALSE if grid_node(lx, q) is not None else Or(gt0(sub(x0, q)), gt0(sub(q, x1))), [wa], 'b')
            a_ = out
            while a_.ndim:
                a_ = reduce_axis(a_, a_.ndim - 1, any_term, 'b')
            it.event('range-check', node, cond=a_.body)
            it.do_raise(ExcV('ValueError', ('out of the interpolation range',), node), node, a_.body)
        rest = [a for q, a in enumerate(Y.axes) if q != ax]
        axes = list(Y.axes[:ax]) + list(wa.axes) + list(Y.axes[ax + 1:])
        # index terms of the result
        widx = [[atomP(v) for v in axvars(ax + q, a)] for q, a in enumerate(wa.axes)]
        wt = wa.at(widx)
        v = fresh_ix()
        yidx = []
        for q, a in enumerate(Y.axes):
            if q < ax:
                yidx.append([atomP(x) for x in axvars(q, a)])
            elif q == ax:
                yidx.append([atomP(v)])
            else:
                yidx.append([atomP(x) for x in axvars(q - 1 + wa.ndim, a)])
        lamy = mklam([v], Y.at(yidx))
        v2 = fresh_ix()
        lamx = mklam([v2], X.at1(atomP(v2)))
        return it.mkarr(Arr(axes, mk_interp(n, lamx, lamy, f.d['opts'], wt), 'f8'))

    # ------------------------------------------------------------ methods
    def method(self, it, r, name, args, kw, node):
        for v in list(args) + list(kw.values()):
            if isinstance(v, Opq):
                if isinstance(r, Ref) and name in ('append', 'extend', 'sort', 'fill', 'update', 'insert', 'setdefault', 'put',
                                                   'pop', 'itemset'):
                    c = it.heap.get(r.cid)
                    if isinstance(c, ListCell) and name == 'append':
                        break
                    it.havoc(r)
                if isinstance(r, Lib) and r.kind == 'registry':
                    break
                if isinstance(r, Ref) and isinstance(it.heap.get(r.cid), ResCell):
                    break
                return it.unmod('method with unknown argument', node)
        if isinstance(r, Opq):
            return r
        if isinstance(r, ClassV) and name == 'type.__call__':
            return it.make_instance(r, args, kw, node)
        if isinstance(r, (str, SymStr)):
            return self.str_method(it, r, name, args, kw, node)
        if isinstance(r, Tup):
            if name == 'index':
                return self.list_index(it, r, args[0], node)
            raise Unmodelled('tuple method')
        if isinstance(r, Arr):
            return ARRMETHODS_CALL(self, it, r, name, args, kw, node)
        if isinstance(r, ExcV):
            return None
        if isinstance(r, Ref):
            c = it.heap.get(r.cid)
            if isinstance(c, (ArrCell, ViewCell)):
                return ARRMETHODS_CALL(self, it, r, name, args, kw, node)
            if isinstance(c, (ListCell, SymListCell, FiltCell)):
                return self.list_method(it, r, c, name, args, kw, node)
            if isinstance(c, DictCell):
                return self.dict_method(it, r, c, name, args, kw, node)
            if isinstance(c, ResCell):
                return self.res_method(it, r, c, name, args, kw, node)
            if isinstance(c, RecCell):
                if name == 'copy':
                    return self.thaw(it, self.freeze(it, r))
                if name == 'field':
                    return it.subscript(r, args[0], node)
            raise Unmodelled('method %s' % name)
        if isinstance(r, Lib):
            return self.lib_method(it, r, name, args, kw, node)
        raise Unmodelled('method %s of %r' % (name, r))

    def str_method(self, it, r, name, args, kw, node):
        if name == 'format':
            if isinstance(r, str):
                return self.str_format(it, r, args, kw)
            raise Unmodelled('format')
        if name in ('endswith', 'startswith') and args and isinstance(args[0], (str, SymStr)):
            if isinstance(r, str) and isinstance(args[0], str):
                return boolv(getattr(r, name)(args[0]))
            return boolv(it.assume_flag(raw_atom(name, self.strterm(r), self.strterm(args[0]))))
        if name == 'split' and not args and not kw:
            if isinstance(r, str):
                return it.new(ListCell(r.split()))
            n = mk('nwords', r.t)
            return it.new(SymListCell(n, lambda k, t=r.t: SymStr(mk('word', t, k)), None))
        if name in ('strip', 'lower', 'upper', 'rstrip', 'lstrip'):
            if isinstance(r, str) and all(isinstance(a, str) for a in args):
                return getattr(r, name)(*args)
            if name in ('lower', 'upper'):
                return SymStr(mk('str' + name, r.t))
            return SymStr(mk('opaque_str' + name, r.t))
        if name == 'join':
            items = it.concrete(args[0])
            if items is not None and isinstance(r, str):
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.append(r)
                    out.append(x)
                return self.str_concat(it, out)
            return SymStr(it.opaque_term('join'))
        if name == 'removesuffix' and isinstance(args[0], str) and isinstance(r, SymStr):
            f = it.assume_flag(raw_atom('endswith', r.t, self.strterm(args[0])))
            return it.merge_val(f, SymStr(self.stem(r.t, len(args[0]))), r)
        if name == 'index' or name == 'find':
            raise Unmodelled('string search')
        if isinstance(r, str) and all(isinstance(a, str) for a in args) and name in ('replace', 'isdigit', 'title'):
            v = getattr(r, name)(*args)
            return boolv(v) if isinstance(v, bool) else v
        raise Unmodelled('string method ' + name)

    def str_format(self, it, s, args, kw):
        import string
        parts = []
        auto = 0
        for lit, fld, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(lit)
            if fld is None:
                continue
            if spec or conv:
                it.counter += 1
                parts.append(SymStr(atomP(raw_atom('opaque', 'format', it.counter))))
                continue
            if fld == '':
                parts.append(args[auto])
                auto += 1
            elif fld.isdigit():
                parts.append(args[int(fld)])
            elif fld in kw:
                parts.append(kw[fld])
            else:
                parts.append(SymStr(it.opaque_term('format')))
        return self.str_concat(it, parts)

    def list_index(self, it, r, x, node):
        items = it.concrete(r)
        if items is not None:
            hit = FALSE
            res = None
            found = []
            for k, i in enumerate(items):
                c = And(it.eq_term(i, x), Not(hit))
                if c is FALSE:
                    continue
                found.append((c, scalar(num(k), 'i', True)))
                hit = Or(hit, c)
            it.event('list-index', node, list=r, key=x)
            it.do_raise(ExcV('ValueError', ('not in list',), node), node, Not(hit))
            res = found[-1][1]
            for c, v in reversed(found[:-1]):
                res = it.merge_val(c, v, res)
            return res
        c = it.heap.get(r.cid) if isinstance(r, Ref) else None
        if isinstance(c, SymListCell):
            kt = it.keyterm(x)
            v = fresh_ix()
            e = c.elem(atomP(v))
            lam = mklam([v], self.strterm(e) if isinstance(e, (str, SymStr)) else it.arr(e).body)
            it.event('list-index', node, list=r, key=x)
            it.do_raise(ExcV('ValueError', ('not in list',), node), node,
                        Not(it.inlist(c, x)))
            return scalar(ZERO if c.count is ONE else mk('index', lam, kt), 'i', True)
        raise Unmodelled('index')

    def list_method(self, it, r, c, name, args, kw, node):
        if name == 'append':
            it.mutate_check(r.cid, node)
            if isinstance(c, ListCell):
                it.heap[r.cid] = ListCell(c.items + (args[0],), c.origin)
                it.event('list-append', node, cid=r.cid, value=args[0])
                return None
            raise Unmodelled('append to symbolic list')
        if name == 'index':
            return self.list_index(it, r, args[0], node)
        if name == 'copy' and not args:
            if isinstance(c, ListCell):
                return it.new(ListCell(c.items))
            if isinstance(c, SymListCell):
                return it.new(SymListCell(c.count, c.elem, c.name))
        if name == 'extend' and isinstance(c, (ListCell, SymListCell)):
            it.inplace(ast.Add(), r, args[0], node)
            return None
        if isinstance(c, ListCell) and not any(isinstance(i, CondItem) for i in c.items):
            items = list(c.items)
            i = (args[0] if args else None) if name in ('pop', 'insert') else None
            i = const(it.arr(i).body) if isinstance(i, Arr) and i.ndim == 0 else None
            if name == 'pop' and (not args or i is not None):
                i = -1 if i is None else int(i)
                if not -len(items) <= i < len(items):
                    it.do_raise(ExcV('IndexError', ('pop index out of range',), node), node)
                    raise Dead()
                v = items.pop(i)
                it.mutate_check(r.cid, node)
                it.heap[r.cid] = ListCell(items, c.origin)
                return v
            if name == 'insert' and i is not None and len(args) == 2:
                items.insert(int(i), args[1])
                it.mutate_check(r.cid, node)
                it.heap[r.cid] = ListCell(items, c.origin)
                return None
            if name in ('reverse', 'clear') and not args:
                it.mutate_check(r.cid, node)
                it.heap[r.cid] = ListCell(items[::-1] if name == 'reverse' else [], c.origin)
                return None
        if name in ('sort', 'reverse', 'pop', 'insert', 'remove', 'clear', 'extend'):
            it.mutate_check(r.cid, node)
            it.havoc(r)
        raise Unmodelled('list method ' + name)

    def dict_method(self, it, r, c, name, args, kw, node):
        cid = r.cid
        if name == 'get':
            d = args[1] if len(args) > 1 else kw.get('default')
            k = args[0]
            hit = it.contains(r, k, node)
            return it.branch(hit, lambda: it.dict_get(cid, k, node, r), lambda: d)
        if name == 'setdefault':
            k = args[0]
            d = args[1] if len(args) > 1 else None
            hit = it.contains(r, k, node)

            def miss():
                it.dict_set(cid, k, d, node)
                return d
            return it.branch(hit, lambda: it.dict_get(cid, k, node, r), miss)
        if name in ('keys', 'items', 'values'):
            if c.sym is None and not any(isinstance(k, CondItem) for k, v in c.items):
                if any(v is UNBOUND or isinstance(v, Phi) and it.unbound_cond(v) is not FALSE for k, v in c.items):
                    raise Unmodelled('conditional keys')
                if name == 'keys':
                    return it.new(ListCell([k for k, v in c.items]))
                if name == 'values':
                    return it.new(ListCell([v for k, v in c.items]))
                return it.new(ListCell([Tup([k, v]) for k, v in c.items]))
            raise Unmodelled('keys of unknown dictionary')
        if name == 'update':
            if args:
                d = it.dictcid(args[0])
                if d is None or it.heap[d].sym is not None:
                    raise Unmodelled('update')
                for k, v in it.heap[d].items:
                    it.dict_set(cid, k, v, node)
            for k, v in kw.items():
                it.dict_set(cid, k, v, node)
            return None
        if name == 'copy':
            return it.new(DictCell(c.items, c.sym))
        if name in ('pop', '__delitem__'):
            k = args[0]
            v = None
            hit = it.contains(r, k, node)
            d = args[1] if len(args) > 1 else NOTGIVEN

            def rem():
                v = it.dict_get(cid, k, node, r)
                it.delitem(r, k, node)
                return v

            def miss():
                if d is NOTGIVEN:
                    it.do_raise(ExcV('KeyError'), node)
                    raise Dead()
                return d
            return it.branch(hit, rem, miss)
        if name == '__setitem__':
            it.dict_set(cid, args[0], args[1], node)
            return None
        if name == '__getitem__':
            return it.dict_get(cid, args[0], node, r)
        if name == '__contains__':
            return boolv(it.contains(r, args[0], node))
        if name == '__init__':
            return None
        if name == 'clear':
            it.mutate_check(cid, node)
            it.event('dict-del', node, key=None, cid=cid)
            it.heap[cid] = DictCell((), None, c.origin)
            return None
        raise Unmodelled('dict method ' + name)

    def res_method(self, it, r, c, name, args, kw, node):
        if c.closed is not FALSE and name not in ('close',):
            it.event('use-closed', node, what=c.kind, cond=And(it.pc, c.closed), where0=c.where)
        if name in ('__exit__',):
            name = 'close'
        if name == '__enter__':
            return r
        if name == 'close':
            it.event('close', node, cid=r.cid)
            it.heap[r.cid] = c.with_(closed=TRUE)
            self.flush_heap(it, it.heap, r.cid)
            return None
        if c.kind == 'file':
            if name == 'read' and not args:
                return SymStr(mk('filetext', c.d['name']))
            if name in ('readlines', 'readline'):
                raise Unmodelled('file lines')
            if name in ('write', 'flush', 'writelines'):
                return None
            raise Unmodelled('file method')
        if c.kind == 'hdul':
            if name == 'extend' and len(args) == 1 and it.concrete(args[0]) is not None:
                for h in it.concrete(args[0]):
                    self.res_method(it, r, it.heap[r.cid], 'append', [h], {}, node)
                return None
            if name in ('append', 'insert'):
                if name == 'insert':
                    raise Unmodelled('HDU insert')
                it.event('fits-append', node, cid=r.cid, closed=c.closed)
                it.heap[r.cid] = ResCell('hdul', dict(c.d, hdus=c.d['hdus'] + (args[0],)), c.closed, c.where, c.origin)
                return None
            if name == 'writeto':
                b = bindargs(['fileobj', 'output_verify', 'overwrite', 'checksum'], args, kw)
                ow = b['overwrite']
                it.event('fits-write', node, filename=b['fileobj'], overwrite=ow)
                self.fs_write(it, b['fileobj'], self.snapshot(it, c.d['hdus']))
                return None
            if name == 'flush':
                if c.d.get('filename') is not None:
                    self.fs_write(it, c.d['filename'], self.snapshot(it, c.d['hdus']))
                return None
            if name in ('info', 'verify', 'fileinfo', 'filename', 'readall'):
                return None
            if name == 'index_of':
                raise Unmodelled('index_of')
            raise Unmodelled('HDUList method ' + name)
        if c.kind == 'table':
            if name == 'write':
                b = bindargs(['filename', 'format', 'overwrite'], args, kw, allow=('serialize_method',))
                it.event('fits-write', node, filename=b['filename'], overwrite=b['overwrite'])
                self.fs_write(it, b['filename'], (Lib('fhdu', name='PRIMARY', type='primary', data=None),
                                                  Lib('fhdu', name=None, type='table', data=self.freeze(it, c.d['data']))))
                return None
            raise Unmodelled('Table method ' + name)
        if c.kind == 'asciitable':
            if name in ('sort', 'argsort') and args and isinstance(args[0], (str, SymStr)) and len(args) == 1 and not kw:
                order = it.call(Ext('numpy.argsort'), [self.subscript(it, r, args[0], node, False)], {}, ARGSORT)
                if name == 'argsort':
                    return order
                it.heap[r.cid] = ResCell('asciitable', dict(c.d, rows=c.d.get('rows', ()) + (it.arr(order),)), FALSE, c.where, c.origin)
                return None
        raise Unmodelled('method %s of %s' % (name, c.kind))

    def lib_method(self, it, r, name, args, kw, node):
        k = r.kind
        if k == 'registry':
            if name == 'load_response':
                b = bindargs(['response', 'reload'], args, kw)
                it.event('reg-load', node, key=b['response'], reload=b['reload'])
                return None
            if name == 'setdefault':
                it.event('reg-set', node, key=args[0], value=args[1])
                return Lib('respobj', key=args[0])
            if name == 'get':
                here = flag(raw_atom('inreg', it.keyterm(args[0])))
                r = Lib('respobj', key=args[0])
                pc0 = it.pc
                it.pc = And(pc0, here)
                it.event('reg-get', node, key=args[0])
                it.pc = pc0
                other = args[1] if len(args) > 1 else kw.get('default')
                c = restrict(here, it.pc)
                return r if c is TRUE else other if c is FALSE else it.merge_val(c, r, other)
            if name == 'keys':
                return r
            raise Unmodelled('registry method ' + name)
        if k == 'respobj' and name == 'project':
            return self.project(it, r, args, kw, node)
        if k == 'cosmo':
            z = args[0] if args else kw.get('z')
            za = it.arr(z)
            if name == 'distmod':
                b = ewise(lambda t: scale(log10E(scale(mk('DL', r.d['name'], t), 10 ** 5)), 5), [za], 'f8')
                return Lib('quantity', arr=b, unit='mag')
            if name == 'luminosity_distance':
                b = ewise(lambda t: mk('DL', r.d['name'], t), [za], 'f8')
                return Lib('quantity', arr=b, unit='Mpc')
            if name in ('angular_diameter_distance', 'comoving_distance', 'comoving_transverse_distance'):
                b = ewise(lambda t: mk('D_' + name, r.d['name'], t), [za], 'f8')
                return Lib('quantity', arr=b, unit='Mpc')
            raise Unmodelled('cosmology method ' + name)
        if k == 'quantity':
            if name in ('to_value', 'to'):
                u = args[0] if args else kw.get('unit')
                if u is None:
                    return it.mkarr(r.d['arr']) if name == 'to_value' else r
                un = u.name.split('.')[-1] if isinstance(u, Ext) else (u if isinstance(u, str) else '?')
                f = {('mag', 'mag'): 1, ('Mpc', 'Mpc'): 1, ('Mpc', 'pc'): 10 ** 6, ('Mpc', 'kpc'): 1000,
                     ('Mpc', 'Gpc'): Fr(1, 1000)}.get((r.d['unit'], un))
                if f is None:
                    raise Unmodelled('unit conversion')
                a = r.d['arr']
                a = Arr(a.axes, scale(a.body, f), 'f8')
                return it.mkarr(a) if name == 'to_value' else Lib('quantity', arr=a, unit=un)
            raise Unmodelled('quantity method')
        if k == 'regex' and name in ('match', 'fullmatch', 'search'):
            return self.call(it, Ext('re.' + name), [r.d['pat']] + list(args), kw, ast.parse('re.%s()' % name).body[0].value)
        if k == 'match':
            if name == 'group':
                return self.match_group(it, r, args[0] if args else scalar(num(0), 'i', True))
            raise Unmodelled('match method')
        if k == 'hdu':
            if name == 'writeto':
                b = bindargs(['name', 'output_verify', 'overwrite', 'checksum'], args, kw)
                it.event('fits-write', node, filename=b['name'], overwrite=b['overwrite'])
                pre = () if r.d['type'] == 'primary' else (Lib('hdu', name='PRIMARY', type='primary', data=None, header=Lib('header')),)
                self.fs_write(it, b['name'], self.snapshot(it, pre + (r,)))
                return None
            raise Unmodelled('HDU method')
        if k == 'header':
            if name == 'get':
                return Opq('header')
            return None
        if k == 'noopobj':
            return r
        if k == 'interp':
            raise Unmodelled('interpolator method')
        if k == 'rng':
            return self.rng_call(it, name, args, kw, node, r)
        if k == 'frozen':
            raise Unmodelled('frozen')
        raise Unmodelled('method %s of %s' % (name, k))

    def project(self, it, r, args, kw, node):
        b = bindargs(['sed', 'wave', 'flux'], args, kw)
        kt = it.keyterm(r.d['key'])

        def with_sed(sed):
            if sed is None or sed is NOTGIVEN:
                wv, fl = it.arr(b['wave']), it.arr(b['flux'])
                it.event('project', node, mode='array')
                return self.project_term(it, kt, wv, wv, fl)
            c = it.heap[sed.cid]
            wv = it.arr(it.getattr(sed, 'wave', node))
            ip = it.getattr(sed, 'interp', node)
            if ip is None:
                it.event('type-error', node, msg='project() of an SED that is not interpolated')
                it.do_raise(ExcV('TypeError', ('NoneType is not callable',)), node)
                raise Dead()

            def g(ip):
                if ip is None:
                    it.do_raise(ExcV('TypeError', ('NoneType is not callable',)), node)
                    raise Dead()
                it.event('project', node, mode='sed')
                return self.project_term(it, kt, wv, ip.d['x'], ip.d['y'])
            return it.on(ip, g)
        return it.on(b['sed'], with_sed)

    def project_term(self, it, kt, wv, X, Y):
        n = wv.axes[0].dim
        v = fresh_ix()
        lamw = mklam([v], wv.at1(atomP(v)))
        lamx = mklam([v], X.at1(atomP(v)))
        if Y.ndim == 1:
            lamy = mklam([v], Y.at1(atomP(v)))
            return scalar(mk('project', kt, n, lamy, lamw, lamx))
        lamy = mklam([v], Y.at([[atomP(IX('@0'))], [atomP(v)]]))
        a = Arr([Y.axes[0]], mk('project', kt, n, lamy, lamw, lamx), 'f8')
        return it.mkarr(squeeze(a))

    def rng_call(self, it, name, args, kw, node, gen):
        raise Unmodelled('random generator method ' + name)


from .terms import _linear

CTORS['project'] = _linear('project', 2)
ARRMETHODS = set()
ARRMETHODS_CALL = None
ADD_COLUMN = None
