"""Transfer functions of the library calls (numpy, scipy, astropy, os, re and the builtins)."""
import os
import re
from .libmodel import *
from . import libmodel as LM


def A(it, v):
    return it.arr(v)


def out(it, a):
    return it.mkarr(a)


def boolarr(a):
    return Arr(a.axes, n2b(a.body), 'b', a.py)


def absent_in(v):
    """condition under which a merged value is no value"""
    if isinstance(v, Phi):
        return Or(And(v.c, absent_in(v.a)), And(Not(v.c), absent_in(v.b)))
    return TRUE if v is UNBOUND else FALSE


# ------------------------------------------------------------------ builtins
@handler('builtins.len')
def h_len(lib, it, args, kw, node):
    v = args[0]
    if isinstance(v, str):
        return scalar(num(len(v)), 'i', True)
    if isinstance(v, Tup):
        return scalar(num(len(v.items)), 'i', True)
    if isinstance(v, SymStr):
        return scalar(mk('strlen', v.t), 'i', True)
    if isinstance(v, (RangeV, SeqV)):
        return scalar(v.count, 'i', True)
    if isinstance(v, Arr) and v.ndim == 0 or v is None or isinstance(v, Lib) and v.kind in ('interp', 'cosmo'):
        it.event('type-error', node, msg='len() of a scalar')
        it.do_raise(ExcV('TypeError', ('len() of unsized object',)), node)
        raise Dead()
    if isinstance(v, Ref):
        c = it.heap[v.cid]
        if isinstance(c, ListCell):
            r = ZERO
            for x in c.items:
                if isinstance(x, Carried):
                    raise NeedPeel()
                r = add(r, b2n(x.c) if isinstance(x, CondItem) else ONE)
            return scalar(r, 'i', True)
        if isinstance(c, SymListCell):
            return scalar(c.count, 'i', True)
        if isinstance(c, FiltCell):
            return scalar(mk('count', mklam([c.iv], c.c), (c.n,)), 'i', True)
        if isinstance(c, RecCell):
            return scalar(c.n, 'i', True)
        if isinstance(c, DictCell):
            if c.sym is None and not any(isinstance(k, CondItem) for k, x in c.items):
                return scalar(num(len(c.items)), 'i', True)
            if c.sym is None:
                present = {}
                for k, x in c.items:
                    cond = TRUE
                    while isinstance(k, CondItem):
                        cond, k = And(cond, k.c), k.v
                    if not isinstance(k, str):
                        raise Unmodelled('len of dict')
                    d = absent_in(x)
                    present[k] = Or(present.get(k, FALSE), And(cond, Not(d)))
                r = ZERO
                for k in present:
                    r = add(r, b2n(present[k]))
                return scalar(r, 'i', True)
            raise Unmodelled('len of dict')
        if isinstance(c, ResCell):
            if c.kind == 'hdul':
                return scalar(num(len(c.d['hdus'])), 'i', True)
            if c.kind == 'asciitable':
                if c.d.get('rows'):
                    return scalar(it.arr(lib.subscript(it, v, 'lambda', node, False)).axes[0].dim, 'i', True)
                return scalar(mk('nrows', c.d['file']), 'i', True)
            raise Unmodelled('len of resource')
        if isinstance(c, InstCell):
            g, _ = c.cls.lookup('__len__')
            if g is not None:
                return it.call_func(g, [v], {}, node)
            if isinstance(c.attrs.get('#dict'), Ref):
                return h_len(lib, it, [c.attrs['#dict']], {}, node)
            raise Unmodelled('len of instance')
        a = A(it, v)
        if a.ndim == 0:
            raise Unmodelled('len of 0-d')
        return scalar(a.axes[0].dim, 'i', True)
    raise Unmodelled('len')


def range_v(it, args, kw):
    vs = [A(it, a).body for a in args]
    if len(vs) == 1:
        st, en, sp = ZERO, vs[0], ONE
    elif len(vs) == 2:
        st, en, sp = vs[0], vs[1], ONE
    else:
        st, en, sp = vs
    cs = const(sp)
    if cs == 1:
        n = sub(en, st)
        cn = const(n)
        if cn is not None and cn < 0:
            n = ZERO
        elif cn is None and not (sgnset(n) <= frozenset('PZX')) and isinstance(n, P):
            if any(c < 0 for m, c in n.terms):
                n = maxE(n, ZERO)
    elif cs == -1:
        n = sub(st, en)
    else:
        cn, cst = const(sub(en, st)), cs
        if cn is not None and cst is not None:
            n = num(len(range(0, int(cn), int(cst))))
        else:
            n = mk('nsteps', st, en, sp)
    return RangeV(st, n, sp)


@handler('builtins.range')
def h_range(lib, it, args, kw, node):
    return range_v(it, args, kw)


@handler('builtins.enumerate')
def h_enum(lib, it, args, kw, node):
    st = A(it, args[1]).body if len(args) > 1 else (A(it, kw['start']).body if 'start' in kw else ZERO)
    items = it.concrete(args[0], node)
    if items is not None:
        if any(isinstance(x, CondItem) for x in items):
            raise Unmodelled('enumerate over conditional list')
        return it.new(ListCell([Tup([scalar(add(st, num(k)), 'i', True), x]) for k, x in enumerate(items)]))
    s = it.as_seq(args[0], node)
    if s is None:
        raise Unmodelled('enumerate')
    n, elem = s
    return SeqV(n, lambda k: Tup([scalar(add(st, k), 'i', True), elem(k)]))


@handler('builtins.zip')
def h_zip(lib, it, args, kw, node):
    con = [it.concrete(a, node) for a in args]
    if all(c is not None for c in con):
        if any(isinstance(x, CondItem) for c in con for x in c):
            raise Unmodelled('zip of conditional lists')
        return it.new(ListCell([Tup(t) for t in zip(*con)]))
    seqs = [it.as_seq(a, node) for a in args]
    if any(s is None for s in seqs):
        raise Unmodelled('zip')
    n = seqs[0][0]
    for s in seqs[1:]:
        if not eq(n, s[0]):
            n = minE(n, s[0])
    if isinstance(n, D):
        raise Unmodelled('zip of different lengths')
    return SeqV(n, lambda k: Tup([s[1](k) for s in seqs]))


@handler('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset', 'builtins.iter')
def h_list(lib, it, args, kw, node):
    nm = ast.unparse(node.func) if isinstance(node, ast.Call) else ''
    if not args:
        return Tup(()) if nm == 'tuple' else it.new(ListCell(()))
    v = args[0]
    items = it.concrete(v, node)
    if nm == 'iter':
        return v
    if items is not None:
        if nm in ('set', 'frozenset'):
            o = []
            for x in items:
                if isinstance(x, CondItem):
                    raise Unmodelled('set of conditional items')
                if not any(it.same_val(x, y) for y in o):
                    o.append(x)
            items = o
        return Tup(items) if nm == 'tuple' else it.new(ListCell(items))
    if nm in ('set', 'frozenset'):
        raise Unmodelled('set of symbolic length')
    if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), FiltCell):
        c = it.heap[v.cid]
        return it.new(FiltCell(c.n, c.iv, c.c, c.v))
    if isinstance(v, LibM) and v.name == 'keys':
        raise Unmodelled('keys')
    nme = None
    if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), SymListCell):
        nme = it.heap[v.cid].name
    s = it.as_seq(v, node)
    if s is None:
        raise Unmodelled('list of %r' % (v,))
    return it.new(SymListCell(s[0], s[1], nme))


@handler('builtins.dict', 'collections.OrderedDict')
def h_dict(lib, it, args, kw, node):
    items = []
    if args:
        d = it.dictcid(args[0])
        if d is not None:
            items = list(it.heap[d].items)
        else:
            xs = it.concrete(args[0])
            if xs is None:
                items.append(pairs_of(it, args[0], node))
            for x in xs or []:
                k, v = it.concrete(x)
                items.append((k, v))
    for k, v in kw.items():
        items.append((k, v))
    return it.new(DictCell(items))


def pairs_of(it, v, node):
    """the entry standing for the pairs of a sequence of symbolic length; the last of equal keys counts"""
    s = it.as_seq(v, node)
    if s is None:
        raise Unmodelled('dict of %r' % (v,))
    iv = fresh_ix('c')
    p = s[1](atomP(iv))
    if not isinstance(p, Tup) or len(p.items) != 2 or not it.plain(p.items[1]):
        raise Unmodelled('dict of symbolic length')
    return (DKeys(s[0], iv, TRUE, p.items[0], False), p.items[1])


@handler('builtins.dict.fromkeys')
def h_fromkeys(lib, it, args, kw, node):
    v = args[1] if len(args) > 1 else None
    xs = it.concrete(args[0])
    if xs is not None:
        d = it.new(DictCell(()))
        for x in xs:
            it.dict_set(d.cid, x, v, node)
        return d
    s = it.as_seq(args[0], node)
    if s is None or not it.plain(v):
        raise Unmodelled('dict of symbolic length')
    iv = fresh_ix('c')
    return it.new(DictCell([(DKeys(s[0], iv, TRUE, s[1](atomP(iv)), False), v)]))


@handler('builtins.int')
def h_int(lib, it, args, kw, node):
    if not args:
        return scalar(ZERO, 'i', True)
    v = args[0]
    if isinstance(v, SymStr):
        return scalar(mk('parse', v.t), 'i', True)
    if isinstance(v, str):
        return scalar(num(int(v)), 'i', True)
    a = scalar_of(it, v, node)
    return scalar(trunc(b2n(a.body)), 'i', True)


def scalar_of(it, v, node):
    if v is None:
        it.event('type-error', node, msg='number from None')
        it.do_raise(ExcV('TypeError', ('number from None',)), node)
        raise Dead()
    a = A(it, v)
    if a.ndim:
        if all(not x.sel and const(x.dim) == 1 for x in a.axes):
            return Arr((), a.at([[ZERO]] * a.ndim), a.dt)
        it.do_raise(ExcV('TypeError', ('only length-1 arrays can be converted',)), node)
        raise Dead()
    return a


@handler('builtins.float')
def h_float(lib, it, args, kw, node):
    if not args:
        return scalar(ZERO, 'f8', True)
    v = args[0]
    if isinstance(v, str):
        return scalar(num(float(v)), 'f8', True)
    if isinstance(v, SymStr):
        return scalar(mk('parse', v.t), 'f8', True)
    if isinstance(v, Lib) and v.kind == 'quantity':
        v = v.d['arr']
    a = scalar_of(it, v, node)
    if a.dt == 's':
        return scalar(mk('parse', a.body), 'f8', True)
    return scalar(b2n(a.body), 'f8', True)


@handler('builtins.bool')
def h_bool(lib, it, args, kw, node):
    return boolv(it.truth(args[0]) if args else FALSE)


@handler('builtins.str', 'builtins.repr', 'builtins.format')
def h_str(lib, it, args, kw, node):
    if not args:
        return ''
    return lib.str_concat(it, [args[0]])


@handler('builtins.abs')
def h_abs1(lib, it, args, kw, node):
    return unary(it, args, kw, absE)


@handler('builtins.print')
def h_print(lib, it, args, kw, node):
    it.event('print', node)
    return None


@handler('builtins.isinstance')
def h_isinst(lib, it, args, kw, node):
    v, t = args
    if isinstance(t, Tup):
        return boolv(Or(*[h_isinst(lib, it, [v, x], {}, node).body for x in t.items]))
    n = t.name if isinstance(t, (Ext, ClassV)) else None
    if isinstance(t, ClassV):
        return boolv(isinstance(v, Ref) and isinstance(it.heap.get(v.cid), InstCell) and t in it.heap[v.cid].cls.mro())
    n = LM.CANON.get(n, n)
    if n is None:
        raise Unmodelled('isinstance')
    isarr = it.is_array(v)
    if n == 'numpy.ndarray':
        return boolv(isarr)
    if n == 'builtins.str':
        return boolv(isinstance(v, (str, SymStr)))
    if n == 'numpy.str_':
        return boolv(isinstance(v, Arr) and v.dt == 's')
    if n in ('builtins.list',):
        return boolv(isinstance(v, Ref) and isinstance(it.heap.get(v.cid), (ListCell, SymListCell, FiltCell)))
    if n == 'builtins.tuple':
        return boolv(isinstance(v, Tup))
    if n == 'builtins.dict':
        return boolv(it.dictcid(v) is not None)
    sc = isinstance(v, Arr) and v.ndim == 0
    if n in ('builtins.bool',):
        return boolv(sc and v.dt == 'b' and v.py)
    if n == 'numpy.bool':
        return boolv(sc and v.dt == 'b' and not v.py)
    if n == 'builtins.int':
        return boolv(sc and v.py and v.dt in ('i', 'b'))
    if n == 'builtins.float':
        return boolv(sc and v.dt == 'f8')
    if n in ('numbers.Number', 'numbers.Real'):
        return boolv(sc and v.dt not in ('s',))
    if n in ('numpy.number', 'numpy.generic'):
        return boolv(sc and not v.py)
    if n in ('numpy.integer',):
        return boolv(sc and not v.py and v.dt == 'i')
    if n in ('numpy.floating',):
        return boolv(sc and not v.py and v.dt in ('f4', 'f8'))
    if n in DTYPES:
        return boolv(sc and not v.py and v.dt == DTYPES[n])
    if n.startswith('collections.abc'):
        return boolv(isarr or isinstance(v, (Tup, str, SymStr)) or isinstance(v, Ref))
    raise Unmodelled('isinstance ' + n)


@handler('builtins.callable')
def h_callable(lib, it, args, kw, node):
    return boolv(isinstance(args[0], (FuncV, BoundM, ClassV, Ext, LibM)))


NPNAME = {'f4': 'numpy.float32', 'f8': 'numpy.float64', 'b': 'numpy.bool_', 'i': 'numpy.int64'}


@handler('builtins.type')
def h_type(lib, it, args, kw, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), InstCell):
        return it.heap[v.cid].cls
    if it.is_array(v):
        return Ext('numpy.ndarray')
    if isinstance(v, (str, SymStr)):
        return Ext('builtins.str')
    if v is None:
        return Ext('builtins.NoneType')
    if isinstance(v, Tup):
        return Ext('builtins.tuple')
    if isinstance(v, Arr) and v.py:
        return Ext('builtins.' + {'i': 'int', 'b': 'bool', 'f8': 'float', 'f4': 'float'}.get(v.dt, 'object'))
    if isinstance(v, Arr) and v.ndim == 0 and v.dt in NPNAME:
        return Ext(NPNAME[v.dt])
    raise Unmodelled('type')


@handler('builtins.hasattr')
def h_hasattr(lib, it, args, kw, node):
    o, n = args
    if isinstance(o, Ref) and isinstance(it.heap.get(o.cid), InstCell) and isinstance(n, str):
        c = it.heap[o.cid]
        if n in c.attrs:
            return boolv(Not(it.unbound_cond(c.attrs[n])))
        return boolv(c.cls.lookup(n)[0] is not None)
    if isinstance(n, str) and (it.is_array(o) or isinstance(o, (Arr, Tup, str, SymStr)) or o is None):
        if n in ('__len__', '__iter__', '__getitem__'):
            return boolv(not (isinstance(o, Arr) or o is None))
        if n in ('ndim', 'shape', 'dtype'):
            return boolv(it.is_array(o) or isinstance(o, Arr) and not o.py)
    raise Unmodelled('hasattr')


@handler('builtins.getattr')
def h_getattr(lib, it, args, kw, node):
    if isinstance(args[1], str):
        if len(args) > 2:
            has = h_hasattr(lib, it, args[:2], {}, node).body
            return it.branch(has, lambda: it.getattr(args[0], args[1], node), lambda: args[2])
        return it.getattr(args[0], args[1], node)
    raise Unmodelled('getattr of an unknown name')


@handler('builtins.setattr')
def h_setattr(lib, it, args, kw, node):
    if isinstance(args[1], str):
        it.setattr(args[0], args[1], args[2], node)
        return None
    raise Unmodelled('setattr of an unknown name')


@handler('builtins.delattr')
def h_delattr(lib, it, args, kw, node):
    it.setattr(args[0], args[1], UNBOUND, node)
    return None


@handler('builtins.id', 'builtins.hash')
def h_id(lib, it, args, kw, node):
    it.event('nondet', node, what='id()/hash() of an object')
    return scalar(it.opaque_term('id'), 'i', True)


@handler('builtins.max', 'builtins.min')
def h_maxmin(lib, it, args, kw, node):
    big = ast.unparse(node.func).endswith('max')
    if len(args) == 1:
        items = it.concrete(args[0])
        if items is None:
            return reduce_minmax(it, A(it, args[0]), None, big, node)
    else:
        items = args
    if 'key' in kw or 'default' in kw:
        raise Unmodelled('max key')
    r = A(it, items[0])
    for x in items[1:]:
        r = ewise(maxE if big else minE, [r, A(it, x)], promote(r, A(it, x)))
        r.py = True
    return r


@handler('builtins.sum')
def h_bsum(lib, it, args, kw, node):
    items = it.concrete(args[0])
    st = args[1] if len(args) > 1 else kw.get('start', scalar(ZERO, 'i', True))
    if items is not None:
        r = st
        for x in items:
            if isinstance(x, CondItem):
                raise Unmodelled('sum of conditional list')
            r = it.on_many([r, x], lambda p, q: it.binop(ast.Add(), p, q, node))
        return r
    s = it.as_seq(args[0], node)
    v = fresh_ix()
    e = A(it, s[1](atomP(v)))
    b = mk('sumover', s[0], mklam([v], b2n(e.body)))
    return it.mkarr(Arr(e.axes, add(b, A(it, st).body), e.dt))


@handler('builtins.any', 'builtins.all')
def h_banyall(lib, it, args, kw, node):
    isany = ast.unparse(node.func) == 'any'
    items = it.concrete(args[0])
    if items is not None:
        bs = []
        for x in items:
            if isinstance(x, CondItem):
                b = it.truth(x.v)
                bs.append(And(x.c, b) if isany else Or(Not(x.c), b))
            else:
                bs.append(it.truth(x))
        return boolv(Or(*bs) if isany else And(*bs))
    s = it.as_seq(args[0], node)
    if s is None:
        raise Unmodelled('any')
    v = fresh_ix()
    b = it.truth(s[1](atomP(v)))
    if isany:
        return boolv(exists(s[0], mklam([v], b)))
    return boolv(Not(exists(s[0], mklam([v], Not(b)))))


@handler('builtins.sorted', 'builtins.reversed', 'builtins.map', 'builtins.filter')
def h_sorted(lib, it, args, kw, node):
    nm = ast.unparse(node.func)
    if nm == 'map' and len(args) == 2:
        items = it.concrete(args[1])
        if items is not None:
            return it.new(ListCell([it.call(args[0], [x], {}, node) for x in items]))
        s = it.as_seq(args[1])
        if s is not None:
            f = args[0]
            return SeqV(s[0], lambda k: it.call(f, [s[1](k)], {}, node))
    if nm == 'reversed':
        items = it.concrete(args[0])
        if items is not None:
            return it.new(ListCell(items[::-1]))
        s = it.as_seq(args[0])
        if s is not None:
            return SeqV(s[0], lambda k: s[1](sub(sub(s[0], ONE), k)))
    if nm == 'sorted' and not kw:
        v = args[0]
        items = it.concrete(v)
        if items is not None and all(isinstance(x, str) for x in items):
            return it.new(ListCell(sorted(items)))
        if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), SymListCell):
            c = it.heap[v.cid]
            e0 = fresh_ix()
            lam = mklam([e0], it.keyterm(c.elem(atomP(e0))))
            return it.new(SymListCell(c.count, lambda k: SymStr(mk('sorted', lam, k)), None))
        if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), FiltCell):
            return v
        if it.is_array(v):
            a = A(it, v)
            if a.dt == 's' and a.ndim == 1 and not a.axes[0].sel:
                e0 = fresh_ix()
                lam = mklam([e0], a.at1(atomP(e0)))
                return it.new(SymListCell(a.axes[0].dim, lambda k: SymStr(mk('sorted', lam, k)), None))
    raise Unmodelled(nm)


@handler('builtins.round')
def h_round(lib, it, args, kw, node):
    a = A(it, args[0])
    if len(args) > 1 or kw:
        return it.mkarr(Arr(a.axes, rounded(it, b2n(a.body), args[1] if len(args) > 1 else kw.get('ndigits')), a.dt, True))
    return it.mkarr(Arr(a.axes, mk('round', b2n(a.body)), 'i', True))


def rounded(it, t, digits):
    n = 0 if digits is None else const(b2n(A(it, digits).body))
    if n is None or n.denominator != 1 if n else False:
        raise Unmodelled('round to a number of digits')
    return lift(lambda x: x if isint(x) and n >= 0 else scale(mk('round', scale(x, Fr(10) ** int(n))), Fr(10) ** -int(n)), t)


@handler('numpy.round', 'numpy.around', 'numpy.round_')
def h_npround(lib, it, args, kw, node):
    b = bindargs(['a', 'decimals', 'out'], args, kw)
    a = A(it, b['a'])
    r = Arr(a.axes, rounded(it, b2n(a.body), b['decimals'] if given(b['decimals']) else None), a.dt)
    return with_out(it, r, {'out': b['out']} if given(b['out']) else {})


@handler('builtins.slice')
def h_slice(lib, it, args, kw, node):
    a = list(args) + [None] * 3
    if len(args) == 1:
        return Lib('slice', start=None, stop=a[0], step=None)
    return Lib('slice', start=a[0], stop=a[1], step=a[2])


@handler('builtins.open', 'io.open')
def h_open(lib, it, args, kw, node):
    b = bindargs(['file', 'mode', 'buffering', 'encoding', 'errors', 'newline'], args, kw)
    m = b['mode']
    r = it.new(ResCell('file', {'name': lib.strterm(b['file']) if isinstance(b['file'], (str, SymStr)) else it.opaque_term('name')},
                       where=it.where(node)))
    it.event('open', node, what='file', name=b['file'], cid=r.cid)
    return r


@handler('builtins.vars', 'builtins.globals', 'builtins.locals', 'builtins.eval', 'builtins.exec')
def h_reflect(lib, it, args, kw, node):
    raise Unmodelled('reflection')


@handler('functools.partial')
def h_partial(lib, it, args, kw, node):
    return Lib('partial', f=args[0], args=tuple(args[1:]), kw=dict(kw))


@handler('copy.copy', 'copy.deepcopy', 'numpy.copy')
def h_copy(lib, it, args, kw, node):
    v = args[0]
    if it.is_array(v) or isinstance(v, Arr):
        return lib.copy_of(it, v)
    if isinstance(v, Ref):
        c = it.heap[v.cid]
        if isinstance(c, ListCell):
            return it.new(ListCell(c.items))
        if isinstance(c, SymListCell):
            return it.new(SymListCell(c.count, c.elem, c.name))
        if isinstance(c, RecCell):
            return lib.thaw(it, lib.freeze(it, v))
    raise Unmodelled('copy')


# ------------------------------------------------------------------ array creation
def shape_res(it, shp, body, dt):
    dims = dims_of(it, shp)
    return out(it, Arr([S(d) for d in dims], body, dt))


@handler('numpy.zeros', 'numpy.ones', 'numpy.empty')
def h_zeros(lib, it, args, kw, node):
    b = bindargs(['shape', 'dtype', 'order'], args, kw)
    nm = node_name(node)
    dt, fields = lib.dtype_of(it, b['dtype'])
    if fields is not None:
        dims = dims_of(it, b['shape'])
        if len(dims) != 1:
            raise Unmodelled('structured array shape')
        fs = {}
        for k, d, shp in fields:
            fs[k] = (d, shp, it.new(ArrCell(Arr([S(dims[0])] + [S(x) for x in shp],
                                                ZERO if d != 's' else atomP(raw_atom('str', '')), d))))
            if getattr(k, 'width', None) is not None:
                it.swidth[fs[k][2].cid] = k.width
        return it.new(RecCell(dims[0], fs))
    dt = dt or 'f8'
    v = {'zeros': ZERO, 'ones': ONE}.get(nm)
    if dt == 'b' and v is not None:
        v = n2b(v)
    dims = dims_of(it, b['shape'])
    for d in dims:
        if isinstance(d, P) and const(d) is None and not isint(d) and not d.opq:
            it.event('type-error', node, msg='non-integer array length', what=brief(d, 60))
    if nm == 'empty':
        # uninitialised content
        if dt == 's':
            v = atomP(raw_atom('str', ''))
        else:
            it.counter += 1
            t = raw_atom('uninit', it.counter, *[atomP(IX('@%d' % p)) for p in range(len(dims))])
            v = flag(t) if dt == 'b' else atomP(t)
    return out(it, Arr([S(d) for d in dims], v, dt))


def node_name(node):
    f = node.func
    return f.attr if isinstance(f, ast.Attribute) else f.id


def fn_of(node, names):
    n = node_name(node)
    return n


@handler('numpy.full')
def h_full(lib, it, args, kw, node):
    b = bindargs(['shape', 'fill_value', 'dtype', 'order'], args, kw)
    f = A(it, b['fill_value'])
    dt, _ = lib.dtype_of(it, b['dtype'])
    dims = dims_of(it, b['shape'])
    base = Arr([S(d) for d in dims], ZERO, dt or f.dt)
    return out(it, store(base, [('ell',)], Arr(f.axes, cast(f.body, f.dt, dt or f.dt), dt or f.dt)) if f.ndim else
               Arr(base.axes, cast(f.body, f.dt, dt or f.dt), dt or f.dt))


@handler('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like')
def h_like(lib, it, args, kw, node):
    nm = node_name(node)
    if nm == 'full_like':
        b = bindargs(['a', 'fill_value', 'dtype', 'order', 'subok', 'shape'], args, kw)
    else:
        b = bindargs(['a', 'dtype', 'order', 'subok', 'shape'], args, kw)
    a = A(it, b['a'])
    dt, _ = lib.dtype_of(it, b['dtype'])
    dt = dt or a.dt
    axes = a.axes
    if given(b['shape']):
        axes = [S(d) for d in dims_of(it, b['shape'])]
    if nm == 'full_like':
        f = A(it, b['fill_value'])
        body = cast(f.body, f.dt, dt)
        if f.ndim:
            return out(it, store(Arr(axes, ZERO, dt), [('ell',)], f))
    else:
        body = ONE if nm == 'ones_like' else ZERO
        if nm == 'empty_like':
            it.counter += 1
            body = atomP(raw_atom('uninit', it.counter, *[atomP(v) for p, ax in enumerate(axes) for v in axvars(p, ax)]))
        if dt == 'b':
            body = n2b(body)
    return out(it, Arr(axes, body, dt))


@handler('numpy.arange')
def h_arange(lib, it, args, kw, node):
    b = bindargs(['start', 'stop', 'step', 'dtype'], args, kw)
    vs = [b[k] for k in ('start', 'stop', 'step') if b[k] is not NOTGIVEN and b[k] is not None]
    if b['stop'] is NOTGIVEN and len(vs) == 2:
        raise Unmodelled('arange keywords')
    dt, _ = lib.dtype_of(it, b['dtype'])
    arrs = [A(it, v) for v in vs]
    bods = [x.body for x in arrs]
    if all(isint(x) for x in bods):
        r = range_v(it, arrs, {})
        n = r.count
        start, step = r.start, r.step
        d = 'i'
    else:
        start = bods[0] if len(bods) > 1 else ZERO
        stop = bods[1] if len(bods) > 1 else bods[0]
        step = bods[2] if len(bods) > 2 else ONE
        n = mk('nsteps', start, stop, step)
        d = 'f8'
    return out(it, Arr([S(n)], add(start, mul(step, atomP(IX('@0')))), dt or d))


@handler('numpy.linspace')
def h_linspace(lib, it, args, kw, node):
    b = bindargs(['start', 'stop', 'num', 'endpoint', 'retstep', 'dtype', 'axis'], args, kw)
    n = A(it, b['num']).body if given(b['num']) else num(50)
    st, en = A(it, b['start']), A(it, b['stop'])
    if st.ndim or en.ndim or given(b['retstep']):
        raise Unmodelled('linspace')
    ep = True if b['endpoint'] is NOTGIVEN else pconst(it, b['endpoint'])
    dt, _ = lib.dtype_of(it, b['dtype'])
    d = sub(n, ONE) if ep else n
    if const(d) == 0:
        step = ZERO
    else:
        step = div(sub(en.body, st.body), d)
    return out(it, Arr([S(n)], add(st.body, mul(step, atomP(IX('@0')))), dt or 'f8'))


def structured(lib, it, v, fields, node):
    """structured array from a list of rows"""
    rows = it.concrete(v)
    if rows is None or not all(isinstance(x, Tup) and len(x.items) == len(fields) for x in rows):
        raise Unmodelled('structured array constructor')
    fs = {}
    n = num(len(rows))
    for k, d, shp in fields:
        fs[k] = (d, shp, it.new(ArrCell(Arr([S(n)] + [S(x) for x in shp], ZERO if d != 's' else atomP(raw_atom('str', '')), d))))
        if getattr(k, 'width', None) is not None:
            it.swidth[fs[k][2].cid] = k.width
    r = it.new(RecCell(n, fs))
    for q, row in enumerate(rows):
        for (k, d, shp), x in zip(fields, row.items):
            it.store(fs[k][2], scalar(num(q), 'i', True), x, node)
    return r


@handler('numpy.array', 'numpy.asarray')
def h_array(lib, it, args, kw, node):
    b = bindargs(['object', 'dtype', 'copy', 'order', 'subok', 'ndmin', 'like'], args,
                 {('object' if k == 'a' else k): v for k, v in kw.items()})
    v = b['object']
    dt, fields = lib.dtype_of(it, b['dtype'])
    if fields is not None:
        return structured(lib, it, v, fields, node)
    isas = node_name(node) in ('asarray', 'asanyarray', 'ascontiguousarray')
    copy = not isas
    if given(b['copy']):
        copy = bool(pconst(it, b['copy']))
    if isinstance(v, Lib) and v.kind == 'quantity':
        v = it.mkarr(v.d['arr'])
    if v is None or isinstance(v, Lib):
        raise Unmodelled('array of %r' % (v,))
    if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), RecCell):
        return lib.thaw(it, lib.freeze(it, v)) if copy else v
    if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), ListCell) and \
            any(isinstance(x, CondItem) for x in it.heap[v.cid].items):
        raise Unmodelled('array of conditional list')
    if it.is_array(v) and not copy:
        a = A(it, v)
        if dt is None or dt == a.dt:
            return v
    a = A(it, v)
    if dt is not None and a.dt == 's' and dt != 's':
        a = Arr(a.axes, mk('parse', a.body), dt)
    a = Arr(a.axes, cast(a.body, a.dt, dt or a.dt), dt or a.dt)
    if dt == 's':
        w = lib.str_width(it, b['dtype'])
        if w is not None:
            a = it.truncated(a, w)
    if given(b['ndmin']):
        while a.ndim < pconst(it, b['ndmin']):
            a = getitem(a, [('new',), ('ell',)])
    if a.ndim == 0:
        # zero-dimensional array: a numpy scalar in this model
        return Arr((), a.body, a.dt, False)
    return it.new(ArrCell(a))


@handler('numpy.atleast_1d', 'numpy.atleast_2d')
def h_atleast(lib, it, args, kw, node):
    n = 1 if node_name(node) == 'atleast_1d' else 2
    v = args[0]
    a = A(it, v)
    if a.ndim >= n:
        return v if it.is_array(v) else out(it, a)
    while a.ndim < n:
        a = getitem(a, [('new',), ('ell',)])
    if it.is_array(v):
        return lib.t_reshape(it, v, [x.dim for x in a.axes])
    return out(it, a)


@handler('numpy.expand_dims')
def h_expand(lib, it, args, kw, node):
    b = bindargs(['a', 'axis'], args, kw)
    a = A(it, b['a'])
    ax = axis_arg(it, b['axis'])
    if isinstance(ax, list):
        raise Unmodelled('expand_dims')
    ax = ax % (a.ndim + 1)
    items = [('slice', None, None, None)] * ax + [('new',)] + [('slice', None, None, None)] * (a.ndim - ax)
    if it.is_array(b['a']):
        return it.view(b['a'], lambda x: getitem(x, items), lambda x, nv: store(x, [('ell',)], squeeze(nv, ax)))
    return out(it, getitem(a, items))


@handler('numpy.eye', 'numpy.identity')
def h_eye(lib, it, args, kw, node):
    n = A(it, args[0]).body
    m = A(it, args[1]).body if len(args) > 1 and args[1] is not None else n
    return out(it, Arr([S(n), S(m)], ite(eq0(sub(atomP(IX('@0')), atomP(IX('@1')))), ONE, ZERO), 'f8'))


@handler('numpy.diag')
def h_diag(lib, it, args, kw, node):
    a = A(it, args[0])
    if len(args) > 1 or kw:
        raise Unmodelled('diag')
    if a.ndim == 1:
        return out(it, Arr([a.axes[0], a.axes[0]], ite(eq0(sub(atomP(IX('@0')), atomP(IX('@1')))), b2n(a.at1(atomP(IX('@0')))), ZERO), a.dt))
    if a.ndim == 2:
        return out(it, Arr([a.axes[0]], a.at1(atomP(IX('@0')), atomP(IX('@0'))), a.dt))
    raise Unmodelled('diag')


# ------------------------------------------------------------------ shape
@handler('numpy.transpose')
def h_transpose(lib, it, args, kw, node):
    b = bindargs(['a', 'axes'], args, kw)
    p = axis_arg(it, b['axes']) if not isinstance(b['axes'], Ref) else [int(pconst(it, x)) for x in it.concrete(b['axes'])]
    return lib.t_transpose(it, b['a'], p)


@handler('numpy.swapaxes', 'numpy.moveaxis')
def h_swap(lib, it, args, kw, node):
    a = A(it, args[0])
    i, j = [int(pconst(it, x)) % a.ndim for x in args[1:3]]
    p = list(range(a.ndim))
    if node_name(node) == 'swapaxes':
        p[i], p[j] = p[j], p[i]
    else:
        p.remove(i)
        p.insert(j, i)
    return lib.t_transpose(it, args[0], p)


@handler('numpy.reshape')
def h_reshape(lib, it, args, kw, node):
    b = bindargs(['a', 'shape', 'order'], args, {('shape' if k == 'newshape' else k): v for k, v in kw.items()})
    if given(b['order']) and b['order'] != 'C':
        raise Unmodelled('reshape order')
    return lib.t_reshape(it, b['a'], dims_of(it, b['shape']))


@handler('numpy.ravel')
def h_ravel(lib, it, args, kw, node):
    return lib.t_ravel(it, args[0])


@handler('numpy.squeeze')
def h_squeeze(lib, it, args, kw, node):
    b = bindargs(['a', 'axis'], args, kw)
    return lib.t_squeeze(it, b['a'], axis_arg(it, b['axis']))


@handler('numpy.tile')
def h_tile(lib, it, args, kw, node):
    b = bindargs(['A', 'reps'], args, kw)
    return out(it, tile(A(it, b['A']), dims_of(it, b['reps'])))


@handler('numpy.repeat')
def h_repeat(lib, it, args, kw, node):
    b = bindargs(['a', 'repeats', 'axis'], args, kw)
    return out(it, repeat_arr(it, A(it, b['a']), A(it, b['repeats']), axis_arg(it, b['axis'])))


def repeat_arr(it, a, r, ax):
    if r.ndim:
        raise Unmodelled('repeat counts')
    if ax is None:
        a = reshape(a, [num(-1)]) if a.ndim != 1 else a
        ax = 0
    ax %= a.ndim
    if const(a.axes[ax].dim) == 1:
        reps = [ONE] * a.ndim
        reps[ax] = r.body
        return tile(a, reps)
    axes = list(a.axes)
    axes[ax] = S(mul(axes[ax].dim, r.body))
    idx = [[atomP(v) for v in axvars(p, x)] for p, x in enumerate(axes)]
    idx[ax] = [floordiv(idx[ax][0], r.body)]
    return Arr(axes, a.at(idx), a.dt)


@handler('numpy.broadcast_to')
def h_bcast(lib, it, args, kw, node):
    b = bindargs(['array', 'shape', 'subok'], args, kw)
    a = A(it, b['array'])
    z = Arr([S(d) for d in dims_of(it, b['shape'])], ZERO, a.dt)
    r = ewise(lambda p, q: p, [a, z], a.dt)
    return out(it, r)


@handler('numpy.stack', 'numpy.vstack', 'numpy.hstack', 'numpy.column_stack', 'numpy.concatenate', 'numpy.append')
def h_stack(lib, it, args, kw, node):
    nm = node_name(node)
    if nm == 'append':
        b = bindargs(['arr', 'values', 'axis'], args, kw)
        arrs = [b['arr'], b['values']]
        ax = axis_arg(it, b['axis'])
        if ax is None:
            arrs = [flat1(it, A(it, x)) for x in arrs]
            ax = 0
        return out(it, concat1([A(it, x) for x in arrs], ax))
    b = bindargs(['arrays', 'axis', 'out', 'dtype'], args, {('arrays' if k in ('tup', 'arrays') else k): v for k, v in kw.items()})
    items = it.concrete(b['arrays'])
    if items is None:
        a = A(it, b['arrays'])
        ax = 0 if b['axis'] is NOTGIVEN else axis_arg(it, b['axis'])
        if nm == 'stack':
            if ax == 0:
                return out(it, a)
            p = list(range(a.ndim))
            p.remove(0)
            p.insert(ax % a.ndim, 0)
            return out(it, transpose(a, p))
        if nm == 'vstack' and a.ndim == 2:
            return out(it, a)
        raise Unmodelled('concatenation of a list of symbolic length')
    if any(isinstance(x, CondItem) for x in items):
        raise Unmodelled('concatenation of conditional items')
    arrs = [A(it, x) for x in items]
    ax = 0 if b['axis'] is NOTGIVEN else axis_arg(it, b['axis'])
    if nm == 'stack':
        a = stack_list(arrs)
        p = list(range(a.ndim))
        p.remove(0)
        p.insert(ax % a.ndim, 0)
        return out(it, transpose(a, p))
    if nm == 'vstack':
        if all(x.ndim == 1 for x in arrs):
            return out(it, stack_list(arrs))
        return out(it, concat1([x if x.ndim > 1 else getitem(x, [('new',), ('ell',)]) for x in arrs], 0))
    if nm == 'column_stack':
        if all(x.ndim == 1 for x in arrs):
            return out(it, transpose(stack_list(arrs)))
        raise Unmodelled('column_stack')
    if nm == 'hstack':
        ax = 0 if arrs[0].ndim == 1 else 1
    if ax is None:
        arrs = [flat1(it, x) for x in arrs]
        ax = 0
    return out(it, concat1(arrs, ax))


def flat1(it, a):
    if a.ndim == 0:
        return getitem(a, [('new',)])
    if a.ndim == 1:
        return a
    return reshape(a, [num(-1)])


def axdesc(ax):
    return ax.lam if ax.sel else ax.dim


def concat1(arrs, p):
    if any(a.axes[p].sel for a in arrs if a.ndim):
        if all(a.ndim == 1 for a in arrs):
            # parts of unknown lengths: one atom over the parts
            parts = []
            tot = ZERO
            for a in arrs:
                ax = a.axes[0]
                vs = [fresh_ix() for _ in range(ax.nv)]
                parts.append((tuple(ax.dims) if ax.sel else (ax.dim,), ax.lam if ax.sel else mklam([fresh_ix()], TRUE),
                              mklam(vs, a.at([[atomP(v) for v in vs]]))))
                tot = add(tot, ax.dim)
            return Arr([S(tot)], atomP(raw_atom('concat', tuple(parts), atomP(IX('@0')))), promote(*arrs))
    return concat(arrs, p)


# ------------------------------------------------------------------ elementwise
def unary(it, args, kw, f, dt=None):
    v = args[0]
    if v is None:
        it.event('type-error', None, msg='arithmetic on None')
        it.do_raise(ExcV('TypeError', ('arithmetic on None',)))
        raise Dead()
    if isinstance(v, Lib) and v.kind == 'quantity':
        v = v.d['arr']
    a = A(it, v)
    d = dt or (a.dt if a.dt in ('f4', 'f8') else ('i' if f is absE else 'f8'))
    r = Arr(a.axes, f(b2n(a.body)), d)
    return with_out(it, r, kw)


def with_out(it, r, kw):
    o = kw.get('out')
    if 'where' in kw:
        w = A(it, kw['where'])
        if o is None:
            raise Unmodelled('where without out')
        cur = A(it, o)
        r = ewise(lambda c, x, y: ite(n2b(c), b2n(x), b2n(y)), [w, r, cur], cur.dt)
    if o is not None:
        if isinstance(o, Tup):
            o = o.items[0]
        it.store_array(o, [('ell',)], r, None)
        return o
    return it.mkarr(r)


def ufunc_dtype(it, kw, f):
    """the result of a ufunc computed in the precision that is asked for"""
    d = kw.get('dtype')
    kw = {k: v for k, v in kw.items() if k not in ('dtype', 'casting')}
    if d is None:
        return f(kw)
    d = it.lib.dtype_of(it, d)[0]
    if d not in ('f4', 'f8') or 'out' in kw:
        raise Unmodelled('ufunc keywords')
    a = A(it, f(kw))
    return it.mkarr(Arr(a.axes, cast(a.body, a.dt, d), d))


def reg_unary(name, f, dt=None):
    def h(lib, it, args, kw, node):
        return ufunc_dtype(it, kw, lambda k: unary(it, args, k, f, dt))
    HANDLERS['numpy.' + name] = h


reg_unary('sqrt', lambda x: powE(x, Fr(1, 2)))
reg_unary('cbrt', lambda x: powE(x, Fr(1, 3)))
reg_unary('square', lambda x: powE(x, 2))
reg_unary('reciprocal', lambda x: powE(x, -1))
reg_unary('log', lnE)
reg_unary('log10', log10E)
reg_unary('log2', lambda x: div(lnE(x), lnE(num(2))))
reg_unary('log1p', lambda x: lnE(add(ONE, x)))
reg_unary('exp', expE)
reg_unary('exp2', lambda x: expE(mul(x, lnE(num(2)))))
reg_unary('expm1', lambda x: sub(expE(x), ONE))
reg_unary('sinh', sinhE)
reg_unary('cosh', coshE)
reg_unary('arcsinh', lambda x: lnE(add(x, powE(add(powE(x, 2), ONE), Fr(1, 2)))))
reg_unary('abs', absE)
reg_unary('negative', neg)
reg_unary('positive', lambda x: x)
reg_unary('isnan', isnan, 'b')
reg_unary('sign', lambda x: sgn_lift(x, {'P': ONE, 'Z': ZERO, 'N': num(-1), 'X': NAN}))
reg_unary('rint', lambda x: mk('round', x))
reg_unary('floor', lambda x: x if isint(x) else mk('floor', x))
reg_unary('ceil', lambda x: x if isint(x) else mk('ceil', x))
reg_unary('trunc', trunc)


def _isfinite(x):
    def f(p):
        a = single_atom(p) if isinstance(p, P) else None
        if p is NAN or any(t.op == 'inf' for m, c in p.terms for t, e in m):
            return FALSE
        if const(p) is not None:
            return TRUE
        return ite(isnan(p), FALSE, Not(flag(raw_atom('isinf', p))))
    return lift(f, x)


def sgn_lift(x, kids):
    return lift(lambda p: sgn_case(p, kids), x)


reg_unary('isfinite', _isfinite, 'b')
reg_unary('isinf', lambda x: lift(lambda p: FALSE if const(p) is not None else ite(isnan(p), FALSE, flag(raw_atom('isinf', p))), x), 'b')
for _n in ('sin', 'cos', 'tan', 'arctan', 'tanh', 'arccos', 'arcsin'):
    reg_unary(_n, (lambda n: lambda x: mk('fn_' + n, x))(_n))
HANDLERS['math.floor'] = HANDLERS['math.ceil'] = None
HANDLERS['math.floor'] = lambda lib, it, args, kw, node: scalar(lift(lambda p: p if isint(p) else num(p_floor(p)) if const(p) is not None else mk('trunc', p) if sgnset(p) <= frozenset('PZ') else mk('ifloor', p), b2n(A(it, args[0]).body)), 'i', True)
HANDLERS['math.ceil'] = lambda lib, it, args, kw, node: scalar(lift(lambda p: p if isint(p) else mk('iceil', p), b2n(A(it, args[0]).body)), 'i', True)


def p_floor(p):
    c = const(p)
    return c.numerator // c.denominator


@handler('numpy.nan_to_num')
def h_nan2num(lib, it, args, kw, node):
    b = bindargs(['x', 'copy', 'nan', 'posinf', 'neginf'], args, kw)
    a = A(it, b['x'])
    nv = A(it, b['nan']).body if given(b['nan']) else ZERO
    return out(it, Arr(a.axes, ite(isnan_e(a.body), nv, b2n(a.body)), a.dt))


def isnan_e(x):
    return lift(isnan, b2n(x))


def reg_bin(name, op=None, fn=None, dt=None):
    def h(lib, it, args, kw, node):
        if 'dtype' in kw:
            return ufunc_dtype(it, kw, lambda k: h(lib, it, args, k, node))
        x, y = args[0], args[1]
        if x is None or y is None:
            it.event('type-error', node, msg='arithmetic on None')
            it.do_raise(ExcV('TypeError', ('arithmetic on None',)), node)
            raise Dead()
        a, b = A(it, x), A(it, y)
        if op is not None:
            r = it.num_binop(op, a, b, node)
            r.py = False
        else:
            r = ewise(lambda p, q: fn(b2n(p), b2n(q)), [a, b], dt or promote(a, b))
        if len(args) > 2:
            kw = dict(kw, out=args[2])
        return with_out(it, r, kw)
    HANDLERS['numpy.' + name] = h


reg_bin('add', ast.Add())
reg_bin('subtract', ast.Sub())
reg_bin('multiply', ast.Mult())
reg_bin('divide', ast.Div())
reg_bin('power', ast.Pow())
reg_bin('floor_divide', ast.FloorDiv())
reg_bin('mod', ast.Mod())
reg_bin('remainder', ast.Mod())
reg_bin('maximum', fn=maxE)
reg_bin('minimum', fn=minE)
reg_bin('hypot', fn=lambda x, y: powE(add(powE(x, 2), powE(y, 2)), Fr(1, 2)))
for _n, _o in (('greater', '>'), ('greater_equal', '>='), ('less', '<'), ('less_equal', '<='), ('equal', '=='), ('not_equal', '!=')):
    reg_bin(_n, fn=(lambda o: lambda x, y: cmp(o, x, y))(_o), dt='b')
reg_bin('logical_and', fn=lambda x, y: And(n2b(x), n2b(y)), dt='b')
reg_bin('logical_or', fn=lambda x, y: Or(n2b(x), n2b(y)), dt='b')
reg_bin('logical_xor', fn=lambda x, y: Or(And(n2b(x), Not(n2b(y))), And(Not(n2b(x)), n2b(y))), dt='b')


@handler('numpy.logical_not')
def h_lnot(lib, it, args, kw, node):
    a = A(it, args[0])
    return with_out(it, Arr(a.axes, Not(n2b(a.body)), 'b'), kw)


@handler('numpy.clip')
def h_clip(lib, it, args, kw, node):
    b = bindargs(['a', 'a_min', 'a_max', 'out'], args, {{'min': 'a_min', 'max': 'a_max'}.get(k, k): v for k, v in kw.items()})
    return with_out(it, clip_arr(it, A(it, b['a']), b['a_min'], b['a_max']), {'out': b['out']} if given(b['out']) else {})


def clip_arr(it, a, lo, hi):
    r = a
    if given(lo):
        l = A(it, lo)
        r = ewise(maxE, [r, l], promote(r, l))
    if given(hi):
        h = A(it, hi)
        r = ewise(minE, [r, h], promote(r, h))
    return r


@handler('numpy.where')
def h_where(lib, it, args, kw, node):
    c = A(it, args[0])
    if len(args) == 1:
        if c.ndim == 0:
            raise Unmodelled('where of a scalar')
        return Tup([it.mkarr(x) for x in nonzero(c)])
    x, y = args[1], args[2]
    if x is None or y is None:
        raise Unmodelled('where of None')
    a, b = A(it, x), A(it, y)
    def f(cc, p, q):
        cc = n2b(cc)
        if is_bool(p) != is_bool(q):
            p, q = b2n(p), b2n(q)
        return ite(cc, p, q)
    return out(it, ewise(f, [c, a, b], promote(a, b)))


@handler('numpy.select')
def h_select(lib, it, args, kw, node):
    b = bindargs(['condlist', 'choicelist', 'default'], args, kw)
    cs, vs = it.concrete(b['condlist']), it.concrete(b['choicelist'])
    r = A(it, b['default']) if given(b['default']) else scalar(ZERO, 'i')
    for c, v in reversed(list(zip(cs, vs))):
        va = A(it, v)
        r = ewise(lambda cc, p, q: ite(n2b(cc), b2n(p), b2n(q)), [A(it, c), va, r], promote(va, r))
    return out(it, r)


@handler('numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere')
def h_nonzero(lib, it, args, kw, node):
    a = A(it, args[0])
    r = nonzero(a)
    if node_name(node) == 'flatnonzero':
        if a.ndim != 1:
            raise Unmodelled('flatnonzero')
        return it.mkarr(r[0])
    if node_name(node) == 'argwhere':
        raise Unmodelled('argwhere')
    return Tup([it.mkarr(x) for x in r])


# ------------------------------------------------------------------ reductions
def red(it, a, b, fn, dt):
    ax = axis_arg(it, b.get('axis', NOTGIVEN))
    kd = b.get('keepdims', NOTGIVEN)
    r = reduce_multi(a, ax, fn, dt)
    if given(kd) and pconst(it, kd):
        axs = list(range(a.ndim)) if ax is None else [x % a.ndim for x in (ax if isinstance(ax, list) else [ax])]
        dims = [ONE if p in axs else x.dim for p, x in enumerate(a.axes)]
        items = [('new',) if p in axs else ('slice', None, None, None) for p in range(a.ndim)]
        r = getitem(r, items)
    return r


def np_sum(it, a, b):
    dt = 'i' if a.dt in ('b', 'i') else a.dt
    return red(it, a, b, sum_term, dt)


@handler('numpy.sum', 'numpy.nansum')
def h_sum(lib, it, args, kw, node):
    b = bindargs(['a', 'axis', 'dtype', 'out', 'keepdims', 'initial', 'where'], args, kw)
    if given(b['initial']) or given(b['out']):
        raise Unmodelled('sum keywords')
    a = A(it, b['a'])
    if given(b['where']):
        a = ewise(lambda x, c: ite(n2b(c), b2n(x), ZERO), [a, A(it, b['where'])], a.dt)
    if node_name(node) == 'nansum':
        a = Arr(a.axes, ite(isnan_e(a.body), ZERO, b2n(a.body)), a.dt)
    return out(it, np_sum(it, a, b))


@handler('numpy.count_nonzero')
def h_cnz(lib, it, args, kw, node):
    b = bindargs(['a', 'axis', 'keepdims'], args, kw)
    a = A(it, b['a'])
    return out(it, np_sum(it, Arr(a.axes, n2b(a.body), 'b'), b))


@handler('numpy.mean', 'numpy.average', 'numpy.var', 'numpy.std', 'numpy.median', 'numpy.nanmean', 'numpy.nanmedian', 'numpy.nanstd',
         'numpy.percentile', 'numpy.quantile')
def h_mean(lib, it, args, kw, node):
    nm = node_name(node)
    if nm in ('percentile', 'quantile'):
        b = bindargs(['a', 'q', 'axis', 'out', 'overwrite_input', 'method', 'keepdims'], args, kw)
        a = A(it, b['a'])
        q = A(it, b['q'])
        return out(it, red(it, a, b, stat_term('quant' + brief(q.body, 60) + ('%' if nm == 'percentile' else '')), 'f8'))
    b = bindargs(['a', 'axis', 'dtype', 'out', 'ddof' if nm in ('std', 'var', 'nanstd') else 'keepdims', 'keepdims_'], args, kw, allow=('keepdims',))
    if 'keepdims' in kw:
        b['keepdims'] = kw['keepdims']
    if nm == 'average' and (len(args) > 2 or 'weights' in kw):
        raise Unmodelled('weighted average')
    return out(it, mean_like(it, A(it, b['a']), b, nm))


def stat_term(nm):
    def f(ax, vs, body):
        dims = tuple(ax.dims) if ax.sel else (ax.dim,)
        return atomP(raw_atom('stat', nm, dims, ax.lam if ax.sel else TRUE, mklam(vs, b2n(body))))
    return f


def mean_like(it, a, b, nm):
    if nm in ('mean', 'average'):
        def fn(ax, vs, body):
            return div(sum_term(ax, vs, body), ax.dim)
        return red(it, a, b, fn, a.dt if a.dt in ('f4', 'f8') else 'f8')
    dd = b.get('ddof', NOTGIVEN)
    d = num(0) if not given(dd) else A(it, dd).body
    if nm in ('var', 'std'):
        def fn2(ax, vs, body):
            n = ax.dim
            m1 = div(sum_term(ax, vs, b2n(body)), n)
            m = mul(sub(b2n(body), m1), sub(b2n(body), m1))
            r = div(sum_term(ax, vs, m), sub(n, d))
            return powE(r, Fr(1, 2)) if nm == 'std' else r
        return red(it, a, b, fn2, a.dt if a.dt in ('f4', 'f8') else 'f8')
    return red(it, a, b, stat_term(nm), 'f8')


@handler('numpy.prod')
def h_prod(lib, it, args, kw, node):
    b = bindargs(['a', 'axis'], args, kw)
    a = A(it, b['a'])
    if a.ndim == 1 and const(a.axes[0].dim) is not None and const(a.axes[0].dim) <= 16:
        r = ONE
        for k in range(int(const(a.axes[0].dim))):
            r = mul(r, b2n(a.at1(num(k))))
        return scalar(r, a.dt)
    return out(it, red(it, a, b, stat_term('prod'), a.dt))


@handler('numpy.cumsum', 'numpy.diff', 'numpy.gradient')
def h_cum(lib, it, args, kw, node):
    nm = node_name(node)
    a = A(it, args[0])
    if nm == 'diff' and len(args) == 1 and not kw and a.ndim == 1 and not a.axes[0].sel:
        i = atomP(IX('@0'))
        return out(it, Arr([S(sub(a.axes[0].dim, ONE))], sub(a.at1(add(i, ONE)), a.at1(i)), a.dt))
    if nm == 'cumsum' and a.ndim == 1 and not kw and len(args) == 1 and not a.axes[0].sel:
        v = fresh_ix()
        lam = mklam([v], b2n(a.at1(atomP(v))))
        return out(it, Arr(a.axes, mk('cumsum', a.axes[0].dim, lam, atomP(IX('@0'))), a.dt))
    raise Unmodelled(nm)


def minmax_term(big):
    def f(ax, vs, body):
        body = b2n(body)
        cd = const(ax.dim)
        if not ax.sel and cd is not None and cd <= 16:
            r = None
            for k in range(int(cd)):
                t = subst(body, {vs[0]: num(k)})
                r = t if r is None else (maxE(r, t) if big else minE(r, t))
            return r
        return mk_minmax(big, ax, vs, body)
    return f


def mk_minmax(big, ax, vs, body):
    if not any(v.id in body.fv for v in vs):
        return body
    if ax.sel:
        return atomP(raw_atom('amax' if big else 'amin', tuple(ax.dims), ax.lam, mklam(vs, body)))
    # common additive/multiplicative structure is left alone
    return atomP(raw_atom('amax' if big else 'amin', (ax.dim,), mklam(vs, body)))


def reduce_minmax(it, a, b, big, node):
    return red(it, a, b or {}, minmax_term(big), a.dt)


@handler('numpy.max', 'numpy.min', 'numpy.nanmax', 'numpy.nanmin')
def h_nmax(lib, it, args, kw, node):
    b = bindargs(['a', 'axis', 'out', 'keepdims'], args, kw)
    a = A(it, b['a'])
    if node_name(node).startswith('nan'):
        return out(it, red(it, a, b, stat_term(node_name(node)), a.dt))
    return out(it, reduce_minmax(it, a, b, node_name(node) in ('max', 'amax'), node))


@handler('numpy.any', 'numpy.all', 'numpy.sometrue', 'numpy.alltrue')
def h_nany(lib, it, args, kw, node):
    b = bindargs(['a', 'axis', 'out', 'keepdims'], args, kw)
    if isinstance(b['a'], Ref) and it.concrete(b['a']) is not None and not it.is_array(b['a']):
        return h_banyall2(it, b['a'], node_name(node) == 'any')
    return out(it, anyall(it, A(it, b['a']), b, node_name(node) in ('any', 'sometrue')))


def h_banyall2(it, v, isany):
    bs = [it.truth(x) for x in it.concrete(v)]
    return boolv(Or(*bs) if isany else And(*bs), False)


def anyall(it, a, b, isany):
    if isany:
        return red(it, Arr(a.axes, n2b(a.body), 'b'), b, any_term, 'b')

    r = red(it, Arr(a.axes, Not(n2b(a.body)), 'b'), b, any_term, 'b')
    return Arr(r.axes, Not(r.body), 'b')


@handler('numpy.argsort', 'numpy.argmax', 'numpy.argmin', 'numpy.nanargmax', 'numpy.nanargmin')
def h_arg(lib, it, args, kw, node):
    b = bindargs(['a', 'axis', 'kind', 'order', 'stable'] if node_name(node) == 'argsort' else ['a', 'axis', 'out', 'keepdims'], args, kw)
    return out(it, arg_op(it, A(it, b['a']), node_name(node), axis_arg(it, b['axis'])))


def arg_op(it, a, nm, ax):
    if nm == 'argsort' and ax is None:
        ax = -1
    if ax is None:
        if a.ndim != 1:
            raise Unmodelled(nm + ' of flattened array')
        ax = 0
    ax %= a.ndim
    vs, body, rem = arrays_lam(a, ax)
    x = a.axes[ax]
    lam = mklam(vs, b2n(body))
    if x.sel:
        raise Unmodelled(nm + ' of selection')
    if nm == 'argsort':
        axes = list(a.axes)
        # renumber: variables of remaining axes shift past ax
        idx = [[atomP(v) for v in axvars(p, y)] for p, y in enumerate(a.axes)]
        idx[ax] = [atomP(vs[0])]
        lam = mklam(vs, b2n(a.at(idx)))
        return Arr(axes, mk('argsort', x.dim, lam, atomP(axvars(ax, x)[0])), 'i')
    return Arr(rem, mk(nm, x.dim, lam), 'i')


def arrays_lam(a, p):
    from .arrays import _lam_last
    return _lam_last(a, p)


@handler('numpy.sort')
def h_sort(lib, it, args, kw, node):
    a = A(it, args[0])
    if a.ndim != 1 or kw or len(args) > 1:
        raise Unmodelled('sort')
    return out(it, sort1(a))


def sort1(a):
    ax = a.axes[0]
    vs = [fresh_ix() for _ in range(ax.nv)]
    lam = mklam(vs, a.at([[atomP(v) for v in vs]]))
    if ax.sel:
        return Arr([S(ax.dim)], atomP(raw_atom('sortsel', tuple(ax.dims), ax.lam, lam, atomP(IX('@0')))), a.dt)
    return Arr([ax], mk('sorted', lam, atomP(IX('@0'))) if False else
               atomP(raw_atom('sortv', ax.dim, lam, atomP(IX('@0')))), a.dt)


def parts_of(a):
    """canonical multiset description of the values of a 1-d array"""
    at = single_atom(a.body) if isinstance(a.body, P) else None
    if at is not None and at.op == 'concat' and single_atom(at.args[1]) is IX('@0'):
        return list(at.args[0])
    if at is not None and at.op == 'sortv' and single_atom(at.args[2]) is IX('@0'):
        lam = at.args[1]
        inner = Arr([S(at.args[0])], lam_open(lam, [atomP(IX('@0'))]), a.dt)
        return parts_of(inner)
    ax = a.axes[0]
    vs = [fresh_ix() for _ in range(ax.nv)]
    lam = mklam(vs, a.at([[atomP(v) for v in vs]]))
    dims = tuple(ax.dims) if ax.sel else (ax.dim,)
    cond = ax.lam if ax.sel else mklam([fresh_ix()], TRUE)
    # concatenation written as a case distinction on the position
    if isinstance(a.body, D) and not ax.sel:
        segs = split_concat(a)
        if segs is not None:
            return segs
    return [(dims, cond, lam)]


def split_concat(a):
    ax = a.axes[0]
    v = IX('@0')
    cuts = []
    for t in tests(a.body):
        if t.kind != 'sgn' or v.id not in t.x.fv:
            return None
    body = a.body
    out_ = []
    lo = ZERO
    guard = 0
    cuts = []
    for t in tests(body):
        # test of  c - v  (or v - c)
        c = add(t.x, atomP(v))
        if v.id in c.fv:
            c = sub(atomP(v), t.x)
            if v.id in c.fv:
                return None
        cuts.append(c)
    # order the cuts
    import functools

    def order(p, q):
        s = sgnset(sub(p, q))
        if s <= frozenset('PZ'):
            return 1
        if s <= frozenset('NZ'):
            return -1
        raise Unmodelled('segments')
    try:
        cuts = sorted(cuts, key=functools.cmp_to_key(order))
    except Unmodelled:
        return None
    bounds = [ZERO] + cuts + [ax.dim]
    for lo, hi in zip(bounds, bounds[1:]):
        inside = And(ge0(sub(atomP(v), lo)), gt0(sub(hi, atomP(v))))
        b = restrict(body, inside)
        if isinstance(b, D):
            return None
        w = fresh_ix()
        out_.append(((sub(hi, lo),), mklam([fresh_ix()], TRUE), mklam([w], subst(b, {v: add(atomP(w), lo)}))))
    return out_


@handler('numpy.unique', 'numpy.union1d')
def h_unique(lib, it, args, kw, node):
    if node_name(node) == 'union1d':
        a = concat1([flat1(it, A(it, args[0])), flat1(it, A(it, args[1]))], 0)
    else:
        if kw or len(args) > 1:
            raise Unmodelled('unique keywords')
        a = flat1(it, A(it, args[0]))
    ps = parts_of(a)
    ps = sorted(set(ps), key=lambda p: (p[2].id, p[1].id, tuple(d.id for d in p[0])))
    t = tuple(ps)
    return out(it, Arr([S(atomP(raw_atom('unique_len', t)))], atomP(raw_atom('unique', t, atomP(IX('@0')))), a.dt))


@handler('numpy.searchsorted', 'numpy.digitize')
def h_ss(lib, it, args, kw, node):
    if node_name(node) == 'digitize':
        raise Unmodelled('digitize')
    b = bindargs(['a', 'v', 'side', 'sorter'], args, kw)
    a, v = A(it, b['a']), A(it, b['v'])
    w = fresh_ix()
    side = b['side'] if isinstance(b['side'], str) else 'left'
    lam = mklam([w], a.at1(atomP(w)))
    return out(it, Arr(v.axes, lift(lambda q: mk('searchsorted', a.axes[0].dim, lam, side, q), b2n(v.body)), 'i'))


# ------------------------------------------------------------------ products
@handler('numpy.dot', 'numpy.inner')
def h_dot(lib, it, args, kw, node):
    a, b = A(it, args[0]), A(it, args[1])
    if node_name(node) == 'inner' and a.ndim == 2 and b.ndim == 2:
        b = transpose(b)
    r = dot(a, b)
    if len(args) > 2:
        kw = dict(kw, out=args[2])
    return with_out(it, r, kw)


@handler('numpy.matmul', 'numpy.vecdot', 'numpy.vdot')
def h_matmul(lib, it, args, kw, node):
    return with_out(it, matmul(A(it, args[0]), A(it, args[1])), kw)


@handler('numpy.tensordot')
def h_tdot(lib, it, args, kw, node):
    a, b = A(it, args[0]), A(it, args[1])
    axs = args[2] if len(args) > 2 else kw.get('axes', scalar(num(2), 'i', True))
    la = 'abcdefgh'[:a.ndim]
    lb = list('ijklmnop'[:b.ndim])
    if isinstance(axs, Arr):
        n = int(pconst(it, axs))
        pa, pb = list(range(a.ndim - n, a.ndim)), list(range(n))
    else:
        x, y = it.concrete(axs)
        pa = [int(pconst(it, q)) for q in (it.concrete(x) if not isinstance(x, Arr) else [x])]
        pb = [int(pconst(it, q)) for q in (it.concrete(y) if not isinstance(y, Arr) else [y])]
    pa = [p % a.ndim for p in pa]
    pb = [p % b.ndim for p in pb]
    for p, q in zip(pa, pb):
        lb[q] = la[p]
    o = ''.join(c for i, c in enumerate(la) if i not in pa) + ''.join(c for i, c in enumerate(lb) if i not in pb)
    return out(it, einsum('%s,%s->%s' % (la, ''.join(lb), o), [a, b]))


@handler('numpy.outer')
def h_outer(lib, it, args, kw, node):
    a, b = [flat1(it, A(it, x)) for x in args[:2]]
    return with_out(it, einsum('i,j->ij', [a, b]), kw)


@handler('numpy.einsum')
def h_einsum(lib, it, args, kw, node):
    if not isinstance(args[0], str) or not set(kw) <= {'optimize'}:
        raise Unmodelled('einsum')
    return out(it, einsum(args[0], [A(it, x) for x in args[1:]]))


@handler('numpy.interp')
def h_ninterp(lib, it, args, kw, node):
    b = bindargs(['x', 'xp', 'fp', 'left', 'right', 'period'], args, kw)
    x, xp, fp = A(it, b['x']), A(it, b['xp']), A(it, b['fp'])
    mode = 'clamp'
    if given(b['left']) or given(b['right']):
        l = const(A(it, b['left']).body) if given(b['left']) else None
        r = const(A(it, b['right']).body) if given(b['right']) else None
        mode = 'fill0' if l == 0 and r == 0 else 'fill(%s,%s)' % (l, r)
    f = Lib('interp', x=xp, y=fp, axis=0, opts=('linear', mode))
    return lib.call_interp(it, f, x if x.ndim == 0 else it.mkarr(x), node)


# ------------------------------------------------------------------ misc numpy
@handler('numpy.dtype')
def h_dtype(lib, it, args, kw, node):
    dt, fl = lib.dtype_of(it, args[0])
    return Lib('dtype', dt=dt, fields=fl)


@handler('numpy.errstate', 'warnings.catch_warnings', 'contextlib.nullcontext', 'contextlib.suppress')
def h_errstate(lib, it, args, kw, node):
    return Lib('context')


@handler('numpy.seterr', 'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.warn')
def h_seterr(lib, it, args, kw, node):
    it.event('global-effect', node, what=node_name(node))
    return None


@handler('numpy.shape')
def h_shape(lib, it, args, kw, node):
    return Tup([scalar(ax.dim, 'i', True) for ax in A(it, args[0]).axes])


@handler('numpy.ndim')
def h_ndim(lib, it, args, kw, node):
    return scalar(num(A(it, args[0]).ndim), 'i', True)


@handler('numpy.size')
def h_size(lib, it, args, kw, node):
    a = A(it, args[0])
    if len(args) > 1 or kw:
        return scalar(a.axes[int(pconst(it, args[1] if len(args) > 1 else kw['axis']))].dim, 'i', True)
    return scalar(prod([ax.dim for ax in a.axes]), 'i', True)


@handler('numpy.isscalar')
def h_isscalar(lib, it, args, kw, node):
    v = args[0]
    return boolv(isinstance(v, (str, SymStr)) or isinstance(v, Arr) and v.ndim == 0)


@handler('numpy.finfo')
def h_finfo(lib, it, args, kw, node):
    return Lib('finfo')


@handler('numpy.array_equal', 'numpy.allclose', 'numpy.isclose')
def h_aeq(lib, it, args, kw, node):
    a, b = A(it, args[0]), A(it, args[1])
    if node_name(node) == 'isclose':
        return out(it, ewise(lambda x, y: flag_lift('isclose', x, y), [a, b], 'b'))
    r = ewise(lambda x, y: cmp('==', b2n(x), b2n(y)) if node_name(node) == 'array_equal' else flag_lift('isclose', b2n(x), b2n(y)), [a, b], 'b')
    return out(it, anyall(it, r, {}, False))


def flag_lift(op, x, y):
    return lift(lambda p, q: TRUE if p is q else flag(raw_atom(op, p, q)), x, y)


@handler('numpy.isin', 'numpy.in1d')
def h_isin(lib, it, args, kw, node):
    raise Unmodelled('isin')


@handler('numpy.take', 'numpy.take_along_axis', 'numpy.compress')
def h_take(lib, it, args, kw, node):
    if node_name(node) != 'take':
        raise Unmodelled('take_along_axis')
    b = bindargs(['a', 'indices', 'axis'], args, kw)
    a = A(it, b['a'])
    ax = axis_arg(it, b['axis'])
    if ax is None:
        if a.ndim != 1:
            raise Unmodelled('take of flattened array')
        ax = 0
    ax %= a.ndim
    ii = A(it, b['indices'])
    items = [('slice', None, None, None)] * ax + [('arr', ii) if ii.ndim else ('int', ii.body)]
    return out(it, getitem(a, items))


@handler('numpy.meshgrid')
def h_mesh(lib, it, args, kw, node):
    ij = kw.get('indexing') == 'ij'
    if len(args) != 2:
        raise Unmodelled('meshgrid')
    x, y = A(it, args[0]), A(it, args[1])
    if ij:
        return it.new(ListCell([it.mkarr(Arr([x.axes[0], y.axes[0]], x.at1(atomP(IX('@0'))), x.dt)),
                                it.mkarr(Arr([x.axes[0], y.axes[0]], y.at1(atomP(IX('@1'))), y.dt))]))
    return it.new(ListCell([it.mkarr(Arr([y.axes[0], x.axes[0]], x.at1(atomP(IX('@1'))), x.dt)),
                            it.mkarr(Arr([y.axes[0], x.axes[0]], y.at1(atomP(IX('@0'))), y.dt))]))


@handler('numpy.copyto')
def h_copyto(lib, it, args, kw, node):
    if kw:
        raise Unmodelled('copyto keywords')
    it.store_array(args[0], [('ell',)], A(it, args[1]), node)
    return None


@handler('numpy.random.normal', 'numpy.random.randn', 'numpy.random.random', 'numpy.random.uniform', 'numpy.random.rand',
         'numpy.random.seed', 'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.poisson',
         'numpy.random.multivariate_normal', 'numpy.random.choice', 'numpy.random.shuffle', 'numpy.random.permutation')
def h_random(lib, it, args, kw, node):
    nm = node_name(node)
    it.event('random', node, what=nm)
    if nm in ('default_rng', 'RandomState'):
        return Lib('rng', seed=args[0] if args else kw.get('seed'))
    if nm == 'seed':
        return None
    return rng_draw(it, nm, args, kw, node)


def rng_draw(it, nm, args, kw, node):
    if nm in ('normal', 'standard_normal', 'randn'):
        if nm == 'normal':
            b = bindargs(['loc', 'scale', 'size'], args, kw)
        elif nm == 'standard_normal' and (node is None or node_name(node) == 'standard_normal'):
            b = dict(bindargs(['size'], args, kw), loc=NOTGIVEN, scale=NOTGIVEN)
        else:
            b = {'loc': NOTGIVEN, 'scale': NOTGIVEN, 'size': Tup(args) if args else NOTGIVEN}
        loc = A(it, b['loc']) if given(b['loc']) else scalar(ZERO)
        sc = A(it, b['scale']) if given(b['scale']) else scalar(ONE)
        if given(b['size']):
            axes = [S(d) for d in dims_of(it, b['size'])]
        else:
            axes, _ = broadcast_axes([loc, sc])
        it.counter += 1
        ids = [atomP(i) for i, n in it.loopctx]
        r = Arr(axes, atomP(raw_atom('rng', it.counter, *(ids + [atomP(v) for p, ax in enumerate(axes) for v in axvars(p, ax)]))), 'f8')
        return it.mkarr(ewise(lambda l, s, e: add(b2n(l), mul(b2n(s), e)), [loc, sc, r], 'f8'))
    it.counter += 1
    size = kw.get('size', args[-1] if args else NOTGIVEN)
    if nm in ('random', 'rand', 'uniform') and not given(size):
        return scalar(atomP(raw_atom('rngo', nm, it.counter)))
    raise Unmodelled('random ' + nm)


def rng_call(self, it, name, args, kw, node, gen):
    it.event('random', node, what=name)
    return rng_draw(it, name, args, kw, node)


LibModel.rng_call = rng_call


# ------------------------------------------------------------------ scipy
@handler('scipy.interpolate.interp1d')
def h_interp1d(lib, it, args, kw, node):
    b = bindargs(['x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted'], args, kw)
    kind = b['kind'] if isinstance(b['kind'], str) else ('linear' if b['kind'] is NOTGIVEN else repr(A(it, b['kind']).body))
    be = b['bounds_error']
    fv = b['fill_value']
    bev = None if not given(be) else pconst(it, be)
    if isinstance(fv, str):
        mode = 'extrapolate' if fv == 'extrapolate' else '?'
        if bev:
            mode = 'error'
    elif bev is True or (bev is None and not given(fv)):
        mode = 'error'
    elif not given(fv):
        mode = 'nan'
    else:
        if isinstance(fv, Tup):
            cs = [const(A(it, x).body) for x in fv.items]
            mode = 'fill0' if cs == [0, 0] else 'fill(%s,%s)' % tuple(cs)
        else:
            a = A(it, fv)
            mode = 'fill0' if a.ndim == 0 and const(a.body) == 0 else 'fill(%s)' % brief(a.body, 40)
    x, y = A(it, b['x']), A(it, b['y'])
    ax = -1 if not given(b['axis']) else int(pconst(it, b['axis']))
    ax %= y.ndim
    if not x.axes[0].same(y.axes[ax]):
        raise ShapeErr('interp1d: x has length %r, y has length %r along the interpolation axis' % (x.axes[0], y.axes[ax]),
                       not (x.axes[0].opq() or y.axes[ax].opq()))
    it.event('interp1d', node, mode=mode, interp_kind=kind)
    if 'spline' in it.faults and y.ndim == 1 and not x.axes[0].sel:
        it.do_raise(ExcV('ValueError'), node, flag(raw_atom('badspline', x.axes[0].dim, kind)))
    # interp1d copies its inputs
    return Lib('interp', x=x, y=y, axis=ax, opts=(kind, mode))


@handler('scipy.integrate.trapezoid', 'scipy.integrate.simpson')
def h_trapz(lib, it, args, kw, node):
    b = bindargs(['y', 'x', 'dx', 'axis'], args, kw)
    simp = 'simps' in node_name(node)
    y = A(it, b['y'])
    ax = -1 if not given(b['axis']) else int(pconst(it, b['axis']))
    ax %= y.ndim
    if y.axes[ax].sel:
        raise Unmodelled('integral over a selection')
    if given(b['x']):
        x = A(it, b['x'])
        if x.ndim != 1:
            raise Unmodelled('trapezoid x')
        if not x.axes[0].same(y.axes[ax]):
            raise ShapeErr('trapezoid: x has length %r, y has length %r' % (x.axes[0], y.axes[ax]),
                           not (x.axes[0].opq() or y.axes[ax].opq()))
        xb = lambda v: x.at1(atomP(v))
    else:
        dx = A(it, b['dx']).body if given(b['dx']) else ONE
        xb = lambda v: mul(dx, atomP(v))
    vs, body, rem = arrays_lam(y, ax)
    it.event('integrate', node)
    n = y.axes[ax].dim
    w = fresh_ix()
    t = mk('simps' if simp else 'trapz', n, mklam(vs, b2n(body)), mklam([w], xb(w)))
    return out(it, Arr(rem, t, 'f8'))


def table_lam(n, f, nargs):
    """lambda whose first argument ranges over n positions; in a form that depends only on the values there"""
    vs = [fresh_ix() for k in range(nargs)]
    k = const(n)
    if k is None or k > 24 or k < 1:
        return mklam(vs, f(*[atomP(v) for v in vs]))
    rest = [atomP(v) for v in vs[1:]]
    r = f(num(int(k) - 1), *rest)
    for j in range(int(k) - 2, -1, -1):
        r = ite(cmp('==', atomP(vs[0]), num(j)), f(num(j), *rest), r)
    return mklam(vs, r)


@handler('scipy.optimize.nnls')
def h_nnls(lib, it, args, kw, node):
    b = bindargs(['A', 'b', 'maxiter', 'atol'], args, kw)
    a, v = A(it, b['A']), A(it, b['b'])
    if a.ndim != 2 or v.ndim != 1:
        raise ShapeErr('nnls of a %d-dimensional matrix and a %d-dimensional vector' % (a.ndim, v.ndim))
    if not a.axes[0].same(v.axes[0]):
        raise ShapeErr('nnls: matrix has %r rows, vector %r' % (a.axes[0], v.axes[0]))
    lama = table_lam(a.axes[0].dim, lambda r, c: b2n(a.at1(r, c)), 2)
    lamb = table_lam(a.axes[0].dim, lambda r: b2n(v.at1(r)), 1)
    it.event('nnls', node, rows=a.axes[0].dim, maxiter=b['maxiter'])
    mi = brief(A(it, b['maxiter']).body, 60) if given(b['maxiter']) else 'default'
    dims = (a.axes[0].dim, a.axes[1].dim)
    fails = flag(raw_atom('nnls_fails', lama, lamb, dims, mi))
    it.do_raise(ExcV('RuntimeError', ('nnls did not converge',)), node, fails)
    x = Arr([a.axes[1]], atomP(raw_atom('nnls', lama, lamb, dims, atomP(IX('@0')))), 'f8')
    rn = scalar(atomP(raw_atom('nnls_norm', lama, lamb, dims)))
    return Tup([it.mkarr(x), rn])


@handler('scipy.optimize.brentq', 'scipy.optimize.bisect', 'scipy.optimize.newton', 'scipy.optimize.root_scalar', 'scipy.optimize.brenth')
def h_root(lib, it, args, kw, node):
    nm = node_name(node)
    if nm in ('newton', 'root_scalar'):
        raise Unmodelled(nm)
    b = bindargs(['f', 'a', 'b', 'args', 'xtol', 'rtol', 'maxiter', 'full_output', 'disp'], args, kw)
    v = fresh_ix('r')
    lo, hi = A(it, b['a']), A(it, b['b'])
    extra = it.concrete(b['args']) if given(b['args']) else []
    it.quiet += 1
    h = Handler(it.frames[-1])
    it.handlers.append(h)
    pc, heap, env = it.pc, dict(it.heap), dict(it.frames[-1].env)
    try:
        r = A(it, it.call(b['f'], [scalar(atomP(v), 'f8', True)] + list(extra), {}, node))
    finally:
        it.quiet -= 1
        it.handlers.pop()
        it.pc, it.heap, it.frames[-1].env = pc, heap, env
    it.event('root', node)
    return scalar(mk_root(mklam([v], b2n(r.body)), lo.body, hi.body), 'f8', True)


def mk_root(lam, lo, hi):
    return lift(lambda l, h: atomP(raw_atom('root', lam, l, h)), b2n(lo), b2n(hi))


# ------------------------------------------------------------------ astropy
def hdu_data(lib, it, v):
    if isinstance(v, Ref) and isinstance(it.heap.get(v.cid), (ListCell, SymListCell)):
        return it.mkarr(A(it, v))
    return None if v is NOTGIVEN else v


@handler('astropy.io.fits.PrimaryHDU', 'astropy.io.fits.ImageHDU', 'astropy.io.fits.BinTableHDU', 'astropy.io.fits.CompImageHDU')
def h_hdu(lib, it, args, kw, node):
    nm = node_name(node)
    b = bindargs(['data', 'header', 'name'], args, kw, allow=('ver', 'uint', 'do_not_scale_image_data', 'scale_back', 'character_as_bytes'))
    name = b['name'] if b['name'] is not NOTGIVEN else None
    if isinstance(name, str):
        name = name.upper()
    if nm == 'PrimaryHDU':
        name = name or 'PRIMARY'
    ty = {'PrimaryHDU': 'primary', 'BinTableHDU': 'table'}.get(nm, 'image')
    d = hdu_data(lib, it, b['data'])
    if ty == 'table' and isinstance(d, Ref) and isinstance(it.heap.get(d.cid), ResCell):
        d = it.heap[d.cid].d['data']
    return Lib('hdu', name=name, type=ty, data=d, header=b['header'] if given(b['header']) else Lib('header'))


@handler('astropy.io.fits.HDUList')
def h_hdulist(lib, it, args, kw, node):
    items = ()
    if args or 'hdus' in kw:
        items = tuple(it.concrete(args[0] if args else kw['hdus']) or ())
    if not items and (args or 'hdus' in kw) and it.concrete(args[0] if args else kw['hdus']) is None:
        raise Unmodelled('HDUList argument')
    return it.new(ResCell('hdul', {'hdus': items, 'mode': None, 'filename': None}, TRUE if False else FALSE, 'memory'))


@handler('astropy.io.fits.open', 'astropy.io.fits.hdu.hdulist.fitsopen')
def h_fopen(lib, it, args, kw, node):
    b = bindargs(['name', 'mode', 'memmap', 'save_backup', 'cache', 'lazy_load_hdus', 'ignore_missing_simple'], args, kw)
    mode = b['mode'] if isinstance(b['mode'], str) else 'readonly'
    r = fopen(lib, it, b['name'], mode, node)
    it.event('open', node, what='fits', name=b['name'], mode=mode, cid=r.cid)
    return r


def merged_file(it, f):
    """a file whose contents differ with a condition"""
    a = merged_file(it, f.a) if isinstance(f.a, Phi) else f.a
    b = merged_file(it, f.b) if isinstance(f.b, Phi) else f.b
    if not (isinstance(a, Lib) and isinstance(b, Lib) and a.kind == b.kind == 'fitsfile'):
        raise Unmodelled('file that exists in some cases only')
    x, y = a.d['hdus'], b.d['hdus']
    if len(x) == len(y):
        return Lib('fitsfile', hdus=tuple(p if p is q else Phi(f.c, p, q) for p, q in zip(x, y)))
    on = lambda c, h: CondItem(And(c, h.c), h.v) if isinstance(h, CondItem) else CondItem(c, h)
    return Lib('fitsfile', hdus=tuple(on(f.c, h) for h in x) + tuple(on(Not(f.c), h) for h in y))


def fopen(lib, it, name, mode, node):
    f = lib.fs_read(it, name)
    if f is None:
        it.event('fits-missing', node, name=name)
        if isinstance(name, str) and name.startswith('<PKG>/'):
            p = os.path.join(it.prog.root, name[len('<PKG>/'):])
            if not os.path.exists(p):
                it.do_raise(ExcV('FileNotFoundError', (name,)), node)
                raise Dead()
            if name.startswith('<PKG>/data/templates/') and name.endswith('.fits'):
                # any shipped template set is described by the same symbols
                f = next((y for x, y in lib.fs_cell(it).items if isinstance(x, str) and x.startswith('<PKG>/data/templates/')), None)
        if f is None:
            raise Unmodelled('unknown FITS file %r' % (name,))
    if isinstance(f, Phi):
        f = merged_file(it, f)
    hd = tuple(lib.thaw_hdu(it, h) for h in f.d['hdus'])
    return it.new(ResCell('hdul', {'hdus': hd, 'mode': mode, 'filename': name}, FALSE, it.where(node)))


@handler('astropy.io.fits.getdata')
def h_getdata(lib, it, args, kw, node):
    ext = args[1] if len(args) > 1 else kw.get('ext', kw.get('extname', scalar(num(0), 'i', True)))
    r = fopen(lib, it, args[0] if args else kw['filename'], 'readonly', node)
    it.heap[r.cid] = it.heap[r.cid].with_(closed=TRUE)
    h = lib.get_hdu(it, r, it.heap[r.cid], ext, node)
    return it.getattr(h, 'data', node)


@handler('astropy.io.fits.writeto', 'astropy.io.fits.append', 'astropy.io.fits.update')
def h_fwrite(lib, it, args, kw, node):
    nm = node_name(node)
    if nm == 'writeto':
        b = bindargs(['filename', 'data', 'header', 'output_verify', 'overwrite', 'checksum'], args, kw)
        it.event('fits-write', node, filename=b['filename'], overwrite=b['overwrite'])
        lib.fs_write(it, b['filename'], lib.snapshot(it, (Lib('hdu', name='PRIMARY', type='primary', data=hdu_data(lib, it, b['data']), header=Lib('header')),)))
        return None
    raise Unmodelled('fits.' + nm)


@handler('astropy.table.Table')
def h_table(lib, it, args, kw, node):
    b = bindargs(['data', 'names', 'dtype'], args, kw, allow=('copy', 'meta'))
    d = b['data']
    if isinstance(d, Ref) and isinstance(it.heap.get(d.cid), RecCell):
        return it.new(ResCell('table', {'data': lib.thaw(it, lib.freeze(it, d))}, FALSE, 'memory'))
    names = it.concrete(b['names']) if given(b['names']) else None
    if not given(d) or d is None:
        if names:
            raise Unmodelled('Table without rows')
        return it.new(ResCell('table', {'data': it.new(RecCell(None, {}))}, FALSE, 'memory'))
    cid = it.dictcid(d)
    if cid is not None:
        cols = [(k, v) for k, v in it.heap[cid].items]
    else:
        vals = it.concrete(d)
        if vals is None or names is None or len(names) != len(vals):
            raise Unmodelled('Table data')
        cols = list(zip(names, vals))
    r = it.new(RecCell(None, {}))
    for k, v in cols:
        if not isinstance(k, str):
            raise Unmodelled('Table column')
        add_column(lib, it, r, k, v)
    return it.new(ResCell('table', {'data': r}, FALSE, 'memory'))


def add_column(lib, it, r, k, v, dt=None, width=None):
    """add a column to a table"""
    c = it.heap[r.cid]
    a = A(it, v)
    if dt is not None:
        a = Arr(a.axes, cast(a.body, a.dt, dt), dt)
    if width is not None:
        a = it.truncated(a, width)
    if a.ndim == 0 or a.axes[0].sel:
        raise Unmodelled('table column')
    n = a.axes[0].dim
    if c.n is not None and not eq(c.n, n):
        raise Unmodelled('column of another length')
    if any(x.sel for x in a.axes):
        raise Unmodelled('filtered table column')
    f = dict(c.fields)
    f[k] = (a.dt, tuple(x.dim for x in a.axes[1:]), it.new(ArrCell(a)))
    it.heap[r.cid] = RecCell(n, f, c.origin)


@handler('astropy.io.fits.Column')
def h_column(lib, it, args, kw, node):
    b = bindargs(['name', 'format', 'unit', 'null', 'bscale', 'bzero', 'disp', 'start', 'dim', 'array'], args, kw, allow=('ascii', 'coord_type', 'coord_unit'))
    if not isinstance(b['name'], str) or not isinstance(b['format'], str) or not given(b['array']):
        raise Unmodelled('FITS column')
    m = re.fullmatch(r'(\d*)([A-Z])', b['format'].upper())
    if m is None or m.group(2) not in 'LBIJKEDA':
        raise Unmodelled('FITS column format')
    dt = {'L': 'b', 'E': 'f4', 'D': 'f8', 'A': 's'}.get(m.group(2), 'i')
    return Lib('fcol', name=b['name'], dt=dt, width=int(m.group(1) or 1) if dt == 's' else None, array=b['array'])


@handler('astropy.io.fits.ColDefs')
def h_coldefs(lib, it, args, kw, node):
    return args[0]


@handler('astropy.io.fits.BinTableHDU.from_columns')
def h_fromcols(lib, it, args, kw, node):
    cols = it.concrete(args[0] if args else kw['columns'])
    if cols is None or not all(isinstance(c, Lib) and c.kind == 'fcol' for c in cols):
        raise Unmodelled('FITS columns')
    r = it.new(RecCell(None, {}))
    for c in cols:
        add_column(lib, it, r, c.d['name'], c.d['array'], c.d['dt'], c.d['width'])
    name = kw.get('name')
    return Lib('hdu', name=name.upper() if isinstance(name, str) else None, type='table', data=r, header=Lib('header'))


@handler('astropy.io.ascii.read', 'astropy.table.Table.read')
def h_ascii(lib, it, args, kw, node):
    f = args[0] if args else kw.get('table')
    it.event('open', node, what='ascii', name=f)
    if 'table' in it.faults:
        it.do_raise(ExcV('InconsistentTableError'), node, flag(raw_atom('badtable', lib.strterm(f))))
    return it.new(ResCell('asciitable', {'file': lib.strterm(f)}, FALSE, 'memory'))


@handler('numpy.loadtxt', 'numpy.genfromtxt', 'numpy.fromstring', 'numpy.fromiter')
def h_loadtxt(lib, it, args, kw, node):
    raise Unmodelled('text reading')


# ------------------------------------------------------------------ os, re
@handler('os.path.join')
def h_join(lib, it, args, kw, node):
    parts = []
    for i, a in enumerate(args):
        if isinstance(a, str) and a.startswith(('/', '<CWD>', '<PKG>')) and i:
            parts = []
        if parts:
            prev = parts[-1]
            if not (isinstance(prev, str) and prev.endswith('/')):
                parts.append('/')
        parts.append(a)
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    # a symbolic component may be absolute: then it replaces what is before it (decided at run time by os.path.join)
    t = [lib.strterm(p) if isinstance(p, (str, SymStr)) else it.keyterm(p) for p in args]
    return SymStr(atomP(raw_atom('pathjoin', *norm_join(t))))


def norm_join(ts):
    out_ = []
    for t in ts:
        a = single_atom(t)
        if a is not None and a.op == 'pathjoin':
            out_.extend(a.args)
            continue
        if a is not None and a.op == 'str' and out_:
            p = single_atom(out_[-1])
            if p is not None and p.op == 'str' and not a.args[0].startswith('/'):
                out_[-1] = atomP(raw_atom('str', p.args[0].rstrip('/') + '/' + a.args[0]))
                continue
        out_.append(t)
    return out_


@handler('os.path.dirname', 'os.path.basename', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser',
         'os.fspath')
def h_path1(lib, it, args, kw, node):
    nm = node_name(node)
    v = args[0]
    if isinstance(v, str):
        if nm == 'dirname':
            return posixpath.dirname(v)
        if nm == 'basename':
            return posixpath.basename(v)
        if nm in ('abspath', 'realpath', 'normpath', 'expanduser', 'fspath'):
            return posixpath.normpath(v)
    if nm == 'fspath':
        return v
    return SymStr(mk('path_' + nm, lib.strterm(v)))


@handler('os.path.splitext')
def h_splitext(lib, it, args, kw, node):
    v = args[0]
    if isinstance(v, str):
        return Tup(list(posixpath.splitext(v)))
    f = it.assume_flag(raw_atom('endswith', v.t, atomP(raw_atom('str', '.dat'))))
    c = it.contains
    other = SymStr(atomP(raw_atom('splitext0', v.t)))
    oe = SymStr(atomP(raw_atom('splitext1', v.t)))
    return Tup([it.merge_val(f, SymStr(lib.stem(v.t, 4)), other), it.merge_val(f, '.dat', oe)])


@handler('os.path.exists', 'os.path.isfile', 'os.path.isabs', 'os.path.isdir')
def h_exists(lib, it, args, kw, node):
    nm = node_name(node)
    v = args[0]
    if isinstance(v, str) and nm == 'isabs':
        return boolv(v.startswith(('/', '<PKG>', '<CWD>')))
    return boolv(it.assume_flag(raw_atom('path_' + nm, lib.strterm(v))))


@handler('os.listdir')
def h_listdir(lib, it, args, kw, node):
    d = lib.strterm(args[0]) if args else atomP(raw_atom('str', '.'))
    n = mk('nfiles', d)
    it.event('listdir', node, what=d)
    if it.listing is not None:
        return it.new(ListCell(list(it.listing)))
    return it.new(SymListCell(n, lambda k: SymStr(mk('file', d, k)), None))


@handler('glob.glob')
def h_glob(lib, it, args, kw, node):
    raise Unmodelled('glob')


@handler('os.getenv', 'os.environ.get', 'os.getcwd', 'time.time', 'datetime.datetime.now')
def h_env(lib, it, args, kw, node):
    it.event('nondet', node, what=ast.unparse(node.func))
    return Opq('environment')


@handler('re.match', 're.fullmatch', 're.search', 're.compile')
def h_re(lib, it, args, kw, node):
    nm = node_name(node)
    if nm == 'compile':
        return Lib('regex', pat=args[0])
    pat, s = args[0], args[1]
    if not isinstance(pat, str):
        raise Unmodelled('regular expression')
    if isinstance(s, str):
        import re
        m = getattr(re, nm)(pat, s)
        if m is None:
            return None
        return Lib('match', pat=pat, s=lib.strterm(s), stem=None, groups=(m.group(0),) + m.groups())
    p = pat
    if nm == 'fullmatch':
        p = '^' + p.lstrip('^').rstrip('$') + '$'
    elif nm == 'match' and not p.startswith('^'):
        p = '^' + p
    import re
    m = re.match(r'^\^\((\.[*+])\)((?:\\\.|[A-Za-z0-9_])+)\$$', p) or re.match(r'^\^(\.[*+])((?:\\\.|[A-Za-z0-9_])+)\$$', p)
    if m:
        suf = m.group(2).replace('\\.', '.')
        f = it.assume_flag(raw_atom('endswith', s.t, atomP(raw_atom('str', suf))))
        return it.merge_val(f, Lib('match', pat=pat, s=s.t, stem=len(suf) if '(' in p else None), None)
    f = it.assume_flag(raw_atom('rematch', p, s.t))
    return it.merge_val(f, Lib('match', pat=pat, s=s.t, stem=None), None)


# ------------------------------------------------------------------ array methods
LM.ARRMETHODS = ARRMETHODS = {
    'copy', 'sum', 'max', 'min', 'mean', 'std', 'var', 'any', 'all', 'reshape', 'dot', 'astype', 'flatten', 'ravel', 'squeeze',
    'transpose', 'tolist', 'item', 'argsort', 'argmax', 'argmin', 'sort', 'fill', 'clip', 'repeat', 'nonzero', 'swapaxes', 'take',
    'cumsum', 'prod', 'round', 'view', 'searchsorted', 'put', 'byteswap', 'newbyteorder', 'tobytes', 'trace', 'conj', 'conjugate',
    '__len__', 'is_integer', 'resize', 'itemset', 'ptp', 'diagonal', 'choose', 'compress', '__array__', 'to_value'}


def arrmethod(lib, it, r, name, args, kw, node):
    a = A(it, r)
    if name == 'copy':
        return lib.copy_of(it, r)
    if name in ('sum', 'mean', 'std', 'var', 'any', 'all', 'max', 'min', 'prod'):
        names = {'sum': ['axis', 'dtype', 'out', 'keepdims'], 'mean': ['axis', 'dtype', 'out', 'keepdims'],
                 'std': ['axis', 'dtype', 'out', 'ddof', 'keepdims'], 'var': ['axis', 'dtype', 'out', 'ddof', 'keepdims']}.get(
                     name, ['axis', 'out', 'keepdims'])
        b = bindargs(names, args, kw)
        if name == 'sum':
            return out(it, np_sum(it, a, b))
        if name in ('mean', 'std', 'var'):
            return out(it, mean_like(it, a, b, name))
        if name in ('any', 'all'):
            return out(it, anyall(it, a, b, name == 'any'))
        if name == 'prod':
            raise Unmodelled('prod')
        return out(it, reduce_minmax(it, a, b, name == 'max', node))
    if name == 'reshape':
        if kw:
            raise Unmodelled('reshape order')
        dims = dims_of(it, args[0]) if len(args) == 1 else [A(it, x).body for x in args]
        return lib.t_reshape(it, r, dims)
    if name == 'dot':
        return out(it, dot(a, A(it, args[0])))
    if name == 'astype':
        dt, fl = lib.dtype_of(it, args[0] if args else kw.get('dtype'))
        if fl is not None:
            raise Unmodelled('astype')
        if 'copy' in kw and not pconst(it, kw['copy']):
            return lib.cast_alias(it, r, dt)
        if a.dt == 's' and dt != 's':
            return out(it, Arr(a.axes, mk('parse', a.body), dt))
        return out(it, Arr(a.axes, cast(a.body, a.dt, dt), dt))
    if name == 'flatten':
        return out(it, reshape(a, [num(-1)])) if a.ndim != 1 else lib.copy_of(it, r)
    if name == 'ravel':
        return lib.t_ravel(it, r)
    if name == 'squeeze':
        return lib.t_squeeze(it, r, axis_arg(it, args[0] if args else kw.get('axis')))
    if name == 'transpose':
        if not args:
            return lib.t_transpose(it, r, None)
        p = axis_arg(it, args[0]) if len(args) == 1 and not isinstance(args[0], Arr) else [int(pconst(it, x)) for x in args]
        return lib.t_transpose(it, r, p)
    if name == 'swapaxes':
        i, j = [int(pconst(it, x)) % a.ndim for x in args]
        p = list(range(a.ndim))
        p[i], p[j] = p[j], p[i]
        return lib.t_transpose(it, r, p)
    if name == 'tolist':
        if a.ndim == 0:
            return Arr((), a.body, a.dt, True)
        items = it.concrete(r)
        if items is not None and a.ndim == 1:
            return it.new(ListCell(items))
        n, elem = it.as_seq(r)
        return it.new(SymListCell(n, elem, None))
    if name == 'item':
        if a.ndim == 0:
            return Arr((), a.body, a.dt, True)
        if args:
            x = it.subscript(r, args[0] if len(args) == 1 else Tup(args), node)
            return x
        return scalar_of(it, r, node)
    if name in ('argsort', 'argmax', 'argmin'):
        return out(it, arg_op(it, a, name, axis_arg(it, args[0] if args else kw.get('axis'))))
    if name == 'sort':
        if a.ndim != 1 or args or kw:
            it.mutate_check(r.cid, node)
            it.havoc(r)
            raise Unmodelled('sort')
        it.mutate_check(r.cid, node)
        it.put_array(r.cid, sort1(a))
        return None
    if name == 'fill':
        it.store_array(r, [('ell',)], A(it, args[0]), node)
        return None
    if name == 'round':
        return h_npround(lib, it, [r] + list(args), kw, node)
    if name == 'clip':
        b = bindargs(['min', 'max', 'out'], args, kw)
        return with_out(it, clip_arr(it, a, b['min'], b['max']), {'out': b['out']} if given(b['out']) else {})
    if name == 'repeat':
        b = bindargs(['repeats', 'axis'], args, kw)
        return out(it, repeat_arr(it, a, A(it, b['repeats']), axis_arg(it, b['axis'])))
    if name == 'nonzero':
        return Tup([it.mkarr(x) for x in nonzero(a)])
    if name == 'take':
        return HANDLERS['numpy.take'](lib, it, [r] + args, kw, node)
    if name in ('byteswap', 'newbyteorder', 'conj', 'conjugate', '__array__'):
        return lib.copy_of(it, r)
    if name == '__len__':
        return HANDLERS['builtins.len'](lib, it, [r], {}, node)
    if name == 'is_integer':
        return boolv(isint(a.body)) if isint(a.body) else boolv(flag(raw_atom('isinteger', a.body)))
    if name in ('put', 'resize', 'itemset', 'view'):
        if isinstance(r, Ref):
            it.mutate_check(r.cid, node)
            it.havoc(r)
    raise Unmodelled('array method ' + name)


LM.ARRMETHODS_CALL = arrmethod
LM.ADD_COLUMN = add_column
