"""Abstract arrays: comprehensions  [axes] -> canonical term."""
import itertools
from .terms import *
from fractions import Fraction as Fr


class ShapeErr(Exception):
    def __init__(self, msg, definite=True):
        Exception.__init__(self, msg)
        self.definite = definite


class Unmodelled(Exception):
    pass


# decides equality of lengths / masks whose normal forms differ; set by the interpreter (None: they differ)
SAME = [None]


def dim_same(a, b):
    return eq(a, b) or SAME[0] is not None and not (is_simple(a) and is_simple(b)) and SAME[0](a, b, (), ())


def is_simple(d):
    """a polynomial of axis lengths: equal only if identical"""
    return isinstance(d, P) and all(a.op == 'dim' for a in atoms(d))


class Ax(object):
    """simple axis (dim) or selection axis (mask over base dims)"""
    __slots__ = ('dim', 'dims', 'lam')

    def __init__(self, dim=None, dims=None, lam=None):
        self.dims = dims
        self.lam = lam
        if dims is not None:
            dim = mk('count', lam, tuple(dims)) if dim is None else dim
        self.dim = dim

    @property
    def sel(self):
        return self.dims is not None

    @property
    def nv(self):
        return len(self.dims) if self.sel else 1

    def same(self, o):
        if self.sel != o.sel:
            return False
        if self.sel:
            if not (len(self.dims) == len(o.dims) and all(dim_same(a, b) for a, b in zip(self.dims, o.dims))):
                return False
            if eq(self.lam, o.lam):
                return True
            if SAME[0] is None:
                return False
            vs = [IX('@s%d' % q) for q in range(len(self.dims))]
            es = [atomP(v) for v in vs]
            return SAME[0](lam_open(self.lam, es), lam_open(o.lam, es), vs, self.dims)
        return dim_same(self.dim, o.dim)

    def opq(self):
        return self.dim.opq

    def __repr__(self):
        if self.sel:
            return 'sel{%s}' % brief(self.lam, 80)
        return brief(self.dim, 80)


def S(d):
    return Ax(dim=d if isinstance(d, (P, D)) else num(d))


def Sel(dims, lam):
    return Ax(dims=tuple(dims), lam=lam)


def axvars(p, ax):
    if ax.sel:
        return [IX('@%d.%d' % (p, q)) for q in range(ax.nv)]
    return [IX('@%d' % p)]


class Arr(object):
    __slots__ = ('axes', 'body', 'dt', 'py')

    def __init__(self, axes, body, dt='f8', py=False):
        self.axes = tuple(axes)
        self.body = body
        self.dt = dt
        self.py = py

    @property
    def ndim(self):
        return len(self.axes)

    def vars(self):
        return [axvars(p, a) for p, a in enumerate(self.axes)]

    def at(self, idx):
        """idx: per axis a list of terms (one per base variable)"""
        m = {}
        for vs, es in zip(self.vars(), idx):
            for v, e in zip(vs, es):
                ve = atomP(v)
                if e is not ve:
                    m[v] = e
        return subst(self.body, m) if m else self.body

    def at1(self, *es):
        return self.at([[e] for e in es])

    def with_(self, **kw):
        r = Arr(self.axes, self.body, self.dt, False)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def __repr__(self):
        return 'Arr%s:%s %s' % (list(self.axes), self.dt, brief(self.body, 200))


def scalar(e, dt='f8', py=False):
    if not isinstance(e, Node):
        e = num(e)
    return Arr((), e, dt, py)


def boolv(b, py=True):
    return Arr((), b if isinstance(b, Node) else B(b), 'b', py)


def from_fn(dims, fn, dt='f4'):
    vs = [IX('@%d' % p) for p in range(len(dims))]
    return Arr([S(d) for d in dims], fn(*[atomP(v) for v in vs]), dt)


def broadcast_axes(arrs):
    """result axes and per-array index lists"""
    nd = max(a.ndim for a in arrs)
    axes = []
    for p in range(nd):
        best = None
        for a in arrs:
            q = p - (nd - a.ndim)
            if q < 0:
                continue
            ax = a.axes[q]
            if not ax.sel and const(ax.dim) == 1:
                if best is None:
                    best = ax
                continue
            if best is None or (not best.sel and const(best.dim) == 1):
                best = ax
            elif not best.same(ax):
                # a plain axis whose length is the count of a selection matches it
                if best.sel != ax.sel and dim_same(best.dim, ax.dim):
                    best = best if best.sel else ax
                    continue
                raise ShapeErr('operands do not align: %r and %r' % (best, ax),
                               not (best.opq() or ax.opq()))
        axes.append(best)
    maps = []
    for a in arrs:
        idx = []
        for q, ax in enumerate(a.axes):
            p = q + nd - a.ndim
            tv = [atomP(v) for v in axvars(p, axes[p])]
            if not ax.sel and const(ax.dim) == 1 and not (const(axes[p].dim) == 1 and not axes[p].sel):
                idx.append([ZERO])
            elif ax.sel == axes[p].sel:
                idx.append(tv)
            elif axes[p].sel and not ax.sel:
                # position within the selection
                idx.append([mk('selpos', axes[p].lam, *tv)])
            else:
                raise Unmodelled('axis kinds')
        maps.append(idx)
    return axes, maps


def ewise(f, arrs, dt):
    axes, maps = broadcast_axes(arrs)
    return Arr(axes, f(*[a.at(m) for a, m in zip(arrs, maps)]), dt)


RANK = {'b': 0, 'i': 1, 'f4': 2, 'f8': 3, 's': 4, 'O': 5}


def promote(*arrs):
    best = 'b'
    for a in arrs:
        if a.py and a.dt in ('f8',) and any(x.dt in ('f4', 'f8') and not x.py for x in arrs):
            continue
        if RANK[a.dt] > RANK[best]:
            best = a.dt
    return best


def cast(body, frm, to):
    if to == 'i':
        return trunc(b2n(body)) if frm != 'i' else b2n(body)
    if to == 'b':
        return n2b(body)
    if to in ('f4', 'f8'):
        return b2n(body)
    return body


# ------------------------------------------------------------------ indexing
def _fullslice(it):
    return it[0] == 'slice' and it[1] is None and it[2] is None and it[3] is None


def expand_items(arr, items):
    """replace Ellipsis and missing trailing items by full slices; returns items"""
    used = 0
    for it in items:
        if it[0] in ('int', 'slice', 'arr'):
            used += 1
        elif it[0] == 'mask':
            used += it[1].ndim if not any(a.sel for a in it[1].axes) else 1
    n = arr.ndim - used
    if n < 0:
        raise ShapeErr('too many indices for %d-dimensional array' % arr.ndim)
    out = []
    seen = False
    for it in items:
        if it[0] == 'ell':
            out.extend([('slice', None, None, None)] * n)
            seen = True
        else:
            out.append(it)
    if not seen:
        out.extend([('slice', None, None, None)] * n)
    return out


def normint(e, d):
    c = const(e)
    if c is not None and c < 0:
        return add(d, e)
    return e


def slice_bounds(it, d):
    """start, stop (terms) for a unit-step slice on an axis of length d"""
    st = ZERO if it[1] is None else normint(it[1], d)
    if it[2] is None:
        en = d
    else:
        en = normint(it[2], d)
        cd, ce = const(d), const(en)
        if not (ce is not None and cd is not None):
            if en is not d:
                en = minE(en, d)
        else:
            en = num(min(cd, ce))
    return st, en


def getitem(arr, items):
    items = expand_items(arr, items)
    nadv = [i for i, it in enumerate(items) if it[0] in ('arr', 'mask')]
    # normalise masks into index arrays
    axes = []          # result axes
    idx = []           # per source axis index terms (in result variable names)
    p = 0              # source axis
    adv_done = False
    adv_axes = None
    separated = False
    if len(nadv) > 1:
        for a, b in zip(nadv, nadv[1:]):
            if b != a + 1:
                separated = True
    norm = []
    for it in items:
        if it[0] == 'mask':
            m = it[1]
            if any(a.sel for a in m.axes):
                if m.ndim != 1:
                    raise Unmodelled('mask over selection')
                norm.append(('arr', nonzero(m)[0]))
            else:
                for k in range(m.ndim):
                    sax = arr.axes[p] if p < arr.ndim else None
                for ia in nonzero(m):
                    norm.append(('arr', ia))
        else:
            norm.append(it)
    items = norm
    advs = [it[1] for it in items if it[0] == 'arr']
    if advs:
        adv_axes, maps = broadcast_axes(advs)
    nad = 0
    first_adv_pos = None
    pend = []
    # advanced indices separated by slices go to the front
    advpos = [i for i, it in enumerate(items) if it[0] == 'arr']
    intpos = [i for i, it in enumerate(items) if it[0] == 'int']
    sep = False
    allpos = sorted(advpos + (intpos if advpos else []))
    for a, b in zip(allpos, allpos[1:]):
        if b != a + 1:
            sep = True
    if advs and sep:
        axes.extend(adv_axes)
        first_adv_pos = 0
    for i, it in enumerate(items):
        if it[0] == 'new':
            axes.append(S(1))
            continue
        if p >= arr.ndim:
            raise ShapeErr('too many indices')
        ax = arr.axes[p]
        if it[0] == 'int':
            e = normint(it[1], ax.dim)
            if ax.sel:
                raw = it[1]
                idx.append([mk('selidx', ax.lam, tuple(ax.dims), q, raw) for q in range(ax.nv)])
            else:
                cd, ce = const(ax.dim), const(it[1])
                if cd is not None and ce is not None and not (-cd <= ce < cd):
                    raise ShapeErr('index %s out of bounds for axis of length %s' % (ce, cd))
                idx.append([e])
        elif it[0] == 'slice':
            if _fullslice(it):
                axes.append(ax)
                idx.append([atomP(v) for v in axvars(len(axes) - 1, ax)])
            elif ax.sel:
                raise Unmodelled('slice of selection')
            elif it[3] is not None and const(it[3]) != 1:
                if const(it[3]) == -1 and it[1] is None and it[2] is None:
                    axes.append(ax)
                    v, = axvars(len(axes) - 1, ax)
                    idx.append([sub(sub(ax.dim, ONE), atomP(v))])
                else:
                    raise Unmodelled('slice step')
            else:
                st, en = slice_bounds(it, ax.dim)
                axes.append(S(sub(en, st)))
                v, = axvars(len(axes) - 1, axes[-1])
                idx.append([add(st, atomP(v))])
        else:
            if first_adv_pos is None:
                first_adv_pos = len(axes)
                axes.extend(adv_axes)
            a = it[1]
            # rename the broadcast variables to their result positions
            ren = []
            for k, bax in enumerate(adv_axes):
                ren.append([atomP(v) for v in axvars(first_adv_pos + k, bax)])
            mapped = []
            off = len(adv_axes) - a.ndim
            for q, aax in enumerate(a.axes):
                bax = adv_axes[q + off]
                if not aax.sel and const(aax.dim) == 1 and not (not bax.sel and const(bax.dim) == 1):
                    mapped.append([ZERO])
                elif aax.sel == bax.sel:
                    mapped.append(ren[q + off])
                else:
                    raise Unmodelled('index broadcasting')
            e = a.at(mapped)
            if ax.sel:
                at = single_atom(e) if isinstance(e, P) else None
                if at is not None and at.op == 'selpos' and eq(at.args[0], ax.lam):
                    idx.append(list(at.args[1:]))
                else:
                    idx.append([mk('selidx', ax.lam, tuple(ax.dims), q, e) for q in range(ax.nv)])
            else:
                # length check of boolean masks
                if getattr(a, 'maskdims', None) is not None:
                    pass
                idx.append([e])
        p += 1
    return Arr(axes, arr.at(idx), arr.dt)


def check_mask(arr, p, m):
    for k, max_ in enumerate(m.axes):
        if p + k >= arr.ndim:
            raise ShapeErr('boolean index has too many dimensions')
        if not max_.same(arr.axes[p + k]):
            raise ShapeErr('boolean index does not match the indexed array: %r and %r'
                           % (max_, arr.axes[p + k]), not (max_.opq() or arr.axes[p + k].opq()))


def nonzero(m):
    """tuple of index arrays of a boolean (or numeric) array"""
    body = n2b(m.body)
    if m.ndim == 1 and m.axes[0].sel:
        ax = m.axes[0]
        vs = axvars(0, ax)
        inner = lam_open(ax.lam, [atomP(v) for v in vs])
        lam = mklam(vs, And(inner, body))
        nax = Sel(ax.dims, lam)
        return [Arr((nax,), mk('selpos', ax.lam, *[atomP(v) for v in axvars(0, nax)]), 'i')]
    if any(a.sel for a in m.axes):
        raise Unmodelled('nonzero over selection axes')
    vs = [v for p, a in enumerate(m.axes) for v in axvars(p, a)]
    lam = mklam(vs, body)
    ax = Sel([a.dim for a in m.axes], lam)
    return [Arr((ax,), atomP(v), 'i') for v in axvars(0, ax)]


def _selpos(lam, *es):
    return atomP(raw_atom('selpos', lam, *es))


def setitem(arr, items, val):
    """functional update; returns the new array"""
    items = expand_items(arr, items)
    conds = []
    raxes = []        # region axes
    rmap = []         # region axis -> terms in arr variables
    p = 0
    i = 0
    while i < len(items):
        it = items[i]
        if it[0] == 'new':
            raxes.append(S(1))
            rmap.append([ZERO])
            i += 1
            continue
        ax = arr.axes[p]
        vs = [atomP(v) for v in axvars(p, ax)]
        if ax.sel and not (it[0] == 'slice' and _fullslice(it)):
            raise Unmodelled('store through a selection axis')
        if it[0] == 'arr' and it[1].ndim == 0:
            it = ('int', it[1].body)
        if it[0] == 'int':
            conds.append(eq0(sub(vs[0], normint(it[1], ax.dim))))
            p += 1
        elif it[0] == 'slice':
            if _fullslice(it):
                raxes.append(ax)
                rmap.append(vs)
            else:
                if it[3] is not None and const(it[3]) != 1:
                    raise Unmodelled('store with slice step')
                st, en = slice_bounds(it, ax.dim)
                if st is not ZERO:
                    conds.append(ge0(sub(vs[0], st)))
                if en is not ax.dim:
                    conds.append(gt0(sub(en, vs[0])))
                raxes.append(S(sub(en, st)))
                rmap.append([sub(vs[0], st)])
            p += 1
        elif it[0] == 'mask':
            m = it[1]
            if any(a.sel for a in m.axes):
                raise Unmodelled('mask over selection')
            check_mask(arr, p, m)
            allv = []
            for k in range(m.ndim):
                allv.append([atomP(v) for v in axvars(p + k, arr.axes[p + k])])
            body = n2b(m.at(allv))
            conds.append(body)
            vs0 = [v for q, a in enumerate(m.axes) for v in axvars(q, a)]
            raxes.append(Sel([a.dim for a in m.axes], mklam(vs0, n2b(m.body))))
            rmap.append([v[0] for v in allv])
            p += m.ndim
        elif it[0] == 'arr':
            # group of consecutive index arrays
            j = i
            grp = []
            while j < len(items) and items[j][0] == 'arr' and items[j][1].ndim > 0:
                grp.append(items[j][1])
                j += 1
            if any(items[k][0] == 'arr' and items[k][1].ndim > 0 for k in range(j, len(items))):
                raise Unmodelled('separated index arrays in store')
            a0 = grp[0]
            if all(g.ndim == 1 and g.axes[0].sel for g in grp) and \
                    all(g.axes[0].same(a0.axes[0]) for g in grp) and a0.axes[0].nv == len(grp):
                sax = a0.axes[0]
                bv = axvars(0, sax)
                if all(single_atom(g.body) is bv[k] for k, g in enumerate(grp)):
                    tv = [atomP(axvars(p + k, arr.axes[p + k])[0]) for k in range(len(grp))]
                    for k in range(len(grp)):
                        if not eq(sax.dims[k], arr.axes[p + k].dim):
                            raise ShapeErr('index array from a mask of another length: %s and %s' % (
                                brief(sax.dims[k], 60), brief(arr.axes[p + k].dim, 60)))
                    conds.append(lam_open(sax.lam, tv))
                    raxes.append(sax)
                    rmap.append(tv)
                    p += len(grp)
                    i = j
                    continue
            if len(grp) == 1 and a0.ndim == 1 and a0.axes[0].sel and a0.axes[0].nv == 1:
                # positions within a selection: position t of the selection L is the element selidx(L, t)
                sp = single_atom(a0.body)
                sax = a0.axes[0]
                if sp is not None and sp.op == 'selpos' and len(sp.args) == 2 and sp.args[1] is atomP(axvars(0, sax)[0]):
                    L = sp.args[0]
                    cnt = mk('count', L, tuple(sax.dims))
                    e = mk('selidx', L, tuple(sax.dims), 0, vs[0])
                    if dim_same(sax.dims[0], ax.dim):
                        conds.append(And(gt0(sub(cnt, vs[0])), lam_open(sax.lam, [e])))
                        raxes.append(sax)
                        rmap.append([e])
                        p += 1
                        i = j
                        continue
            if len(grp) == 1 and a0.ndim == 1 and not a0.axes[0].sel:
                off = sub(a0.body, atomP(IX('@0')))
                if IX('@0').id not in off.fv:
                    n = a0.axes[0].dim
                    if off is not ZERO:
                        conds.append(ge0(sub(vs[0], off)))
                    if not eq(add(off, n), ax.dim):
                        conds.append(gt0(sub(add(off, n), vs[0])))
                    raxes.append(S(n))
                    rmap.append([sub(vs[0], off)])
                    p += 1
                    i = j
                    continue
                cd = const(a0.axes[0].dim)
                if cd is not None and cd <= 24:
                    # small explicit index list: unroll (last one wins)
                    raise SmallScatter(i, a0, int(cd))
            raise Unmodelled('scatter store')
        i += 1
    # broadcast the value onto the region
    nd = len(raxes)
    va = list(val.axes)
    v = val
    while len(va) > nd:
        if not va[0].sel and const(va[0].dim) == 1:
            v = getitem(v, [('int', ZERO)])
            va = list(v.axes)
        else:
            raise ShapeErr('cannot store a %d-dimensional value into a %d-dimensional region' % (val.ndim, nd))
    idx = []
    for q, ax in enumerate(va):
        r = raxes[q + nd - len(va)]
        if not ax.sel and const(ax.dim) == 1 and not (not r.sel and const(r.dim) == 1):
            idx.append([ZERO])
        elif ax.sel and r.sel:
            if not ax.same(r):
                raise ShapeErr('value and target select different elements: %r and %r' % (ax, r),
                               not (ax.opq() or r.opq()))
            idx.append(rmap[q + nd - len(va)])
        elif not ax.sel and not r.sel:
            if not dim_same(ax.dim, r.dim):
                raise ShapeErr('cannot store axis of length %s into axis of length %s'
                               % (brief(ax.dim, 80), brief(r.dim, 80)), not (ax.opq() or r.opq()))
            idx.append(rmap[q + nd - len(va)])
        else:
            raise ShapeErr('cannot store %r into %r' % (ax, r), not (ax.opq() or r.opq()))
    newv = cast(v.at(idx), v.dt, arr.dt)
    c = And(*conds)
    old = arr.body
    if is_bool(newv) != is_bool(old):
        newv, old = b2n(newv), b2n(old)
    return Arr(arr.axes, ite(c, newv, old), arr.dt)


class SmallScatter(Exception):
    def __init__(self, pos, arr, n):
        Exception.__init__(self, 'scatter')
        self.pos, self.arr, self.n = pos, arr, n


def store(arr, items, val):
    try:
        return setitem(arr, items, val)
    except SmallScatter as s:
        items = expand_items(arr, items)
        r = arr
        # region axis position of the index list
        q = sum(1 for it in items[:s.pos] if it[0] in ('slice', 'new'))
        nreg = sum(1 for it in items if it[0] in ('slice', 'new')) + 1
        for k in range(s.n):
            its = list(items)
            its[s.pos] = ('int', s.arr.at1(num(k)))
            v = val
            vq = q - (nreg - v.ndim)
            if v.ndim and vq >= 0:
                ax = v.axes[vq]
                if const(ax.dim) == 1 and s.n != 1:
                    v = getitem(v, [('slice', None, None, None)] * vq + [('int', ZERO)])
                else:
                    if const(ax.dim) != s.n:
                        raise ShapeErr('cannot store axis of length %r into %d positions' % (ax, s.n))
                    v = getitem(v, [('slice', None, None, None)] * vq + [('int', num(k))])
            r = setitem(r, its, v)
        return r


# ------------------------------------------------------------------ reductions and products
def _lam_last(arr, p):
    """open axis p: returns (fresh index atoms, body with remaining axes renumbered, remaining axes)"""
    ax = arr.axes[p]
    vs = [fresh_ix() for _ in range(ax.nv)]
    idx = []
    rem = []
    for q, a in enumerate(arr.axes):
        if q == p:
            idx.append([atomP(v) for v in vs])
        else:
            idx.append([atomP(v) for v in axvars(len(rem), a)])
            rem.append(a)
    return vs, arr.at(idx), rem


def reduce_axis(arr, p, fn, dt):
    """fn(ax, vs, body) -> term"""
    vs, body, rem = _lam_last(arr, p)
    return Arr(rem, fn(arr.axes[p], vs, body), dt)


def sum_term(ax, vs, body):
    body = b2n(body)
    if ax.sel:
        body = ite(lam_open(ax.lam, [atomP(v) for v in vs]), body, ZERO)
        for v, d in reversed(list(zip(vs, ax.dims))):
            body = mk('sumover', d, mklam([v], body))
        return body
    return mk('sumover', ax.dim, mklam(vs, body))


def any_term(ax, vs, body):
    body = n2b(body)
    dims = [ax.dim]
    if ax.sel:
        body = And(body, lam_open(ax.lam, [atomP(v) for v in vs]))
        dims = ax.dims
    for v, d in reversed(list(zip(vs, dims))):
        body = exists(d, mklam([v], body))
    return body


def exists(dim, lam):
    v = fresh_ix()
    body = lam_open(lam, [atomP(v)])
    if not isinstance(body, D):
        return body
    cd = const(dim)
    if cd is not None and cd <= 24:
        return Or(*[lam_open(lam, [num(k)]) for k in range(int(cd))])
    for t in tests(body):
        if v.id not in t.fv:
            return case(t, [exists(dim, mklam([v], _cofall2(body, t, i))) for i in range(len(t.states))])
    if body.test.kind == 'flag' and body.test.x.op == 'streq' and body.kids[0] is TRUE and body.kids[1] is FALSE:
        # some name of a list is the given one: the list contains it
        for a, b in (body.test.x.args, body.test.x.args[::-1]):
            e, k = single_atom(a), single_atom(b)
            if e is not None and e.op == 'in' and len(e.args) == 3 and eq(e.args[2], atomP(v)) and v.id not in b.fv and \
                    LISTDIM.get(e.args[0]) is not None and eq(LISTDIM[e.args[0]], dim):
                if k is not None and k.op == 'in' and k.args[:2] == e.args[:2]:
                    return TRUE
                return flag(raw_atom('inlist', mklam([v], a), b))
    return flag(raw_atom('any', dim, mklam([v], body)))


LISTDIM = {}            # the number of names in the symbolic list of that name


def drop_guards(e, vs, dims):
    """remove tests of "does any element satisfy it" that make no difference where this element does or does not"""
    if not isinstance(e, D):
        return e
    vs = [v if isinstance(v, Node) and not isinstance(v, Atom) else atomP(v) for v in vs]
    for t in tests(e):
        if t.kind == 'sgn':
            a = single_atom(t.x)
            if a is None or a.op != 'count' or 'Z' not in t.states:
                continue
            lam, ds, z = a.args[0], a.args[1], t.states.index('Z')
        elif t.kind == 'flag' and t.x.op == 'any':
            lam, ds, z = t.x.args[1], (t.x.args[0],), 1
        else:
            continue
        if len(ds) > 3 or len(ds) > len(vs) or len(t.states) != 2:
            continue
        for pick in itertools.permutations(range(len(vs)), len(ds)):
            if not all(dims[p] is not None and eq(dims[p], d) for p, d in zip(pick, ds)):
                continue
            inst = lam_open(lam, [vs[p] for p in pick])
            full, empty = _cofall2(e, t, 1 - z), _cofall2(e, t, z)
            if is_bool(full) == is_bool(empty) and ite(inst, full, empty) is full:
                return drop_guards(full, vs, dims)
    return e


def _cofall2(e, t, i):
    from .terms import _cofall
    return _cofall(e, t, i)


def reduce_multi(arr, axis, fn, dt):
    if axis is None:
        ps = list(range(arr.ndim))
    elif isinstance(axis, (list, tuple)):
        ps = [a % arr.ndim for a in axis]
    else:
        if arr.ndim == 0 or not (-arr.ndim <= axis < arr.ndim):
            raise ShapeErr('axis %s out of bounds for %d-dimensional array' % (axis, arr.ndim))
        ps = [axis % arr.ndim]
    r = arr
    for p in sorted(ps, reverse=True):
        r = reduce_axis(r, p, fn, dt)
    r.dt = dt
    return r


def dot(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return ewise(mul, [a, b], promote(a, b))
    pa = a.ndim - 1
    pb = b.ndim - 2 if b.ndim > 1 else 0
    if not a.axes[pa].same(b.axes[pb]):
        raise ShapeErr('dot of axes %r and %r' % (a.axes[pa], b.axes[pb]),
                       not (a.axes[pa].opq() or b.axes[pb].opq()))
    ax = a.axes[pa]
    vs = [fresh_ix() for _ in range(ax.nv)]
    axes = []
    ia = []
    for q, x in enumerate(a.axes):
        if q == pa:
            ia.append([atomP(v) for v in vs])
        else:
            ia.append([atomP(v) for v in axvars(len(axes), x)])
            axes.append(x)
    ib = []
    for q, x in enumerate(b.axes):
        if q == pb:
            ib.append([atomP(v) for v in vs])
        else:
            ib.append([atomP(v) for v in axvars(len(axes), x)])
            axes.append(x)
    return Arr(axes, sum_term(ax, vs, mul(a.at(ia), b.at(ib))), promote(a, b))


def matmul(a, b):
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    # stacked matrices: a[..., i, k] b[..., k, j]
    la = 'abcdefgh'[:a.ndim - 2] + 'ik'
    if b.ndim == 1:
        lb, out = 'k', la[:-1]
    elif b.ndim == 2:
        lb, out = 'kj', la[:-1] + 'j'
    else:
        lb = 'abcdefgh'[:b.ndim - 2] + 'kj'
        if a.ndim == 1:
            la, out = 'k', lb[:-2] + 'j'
        elif a.ndim == 2:
            la, out = 'ik', lb[:-2] + 'ij'
        else:
            out = (la if len(la) >= len(lb) else lb)[:-2] + 'ij'
    return einsum('%s,%s->%s' % (la, lb, out), [a, b])


def einsum(spec, arrs):
    spec = spec.replace(' ', '')
    if '.' in spec:
        raise Unmodelled('einsum ellipsis')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(arrs):
        raise ShapeErr('einsum operand count')
    axof = {}
    for lab, a in zip(ins, arrs):
        if len(lab) != a.ndim:
            raise ShapeErr('einsum subscripts %r for a %d-dimensional operand' % (lab, a.ndim))
        for c, ax in zip(lab, a.axes):
            if c in axof:
                if const(axof[c].dim) == 1:
                    axof[c] = ax
                elif const(ax.dim) == 1:
                    pass
                elif not axof[c].same(ax):
                    raise ShapeErr('einsum index %s has lengths %r and %r' % (c, axof[c], ax),
                                   not (ax.opq() or axof[c].opq()))
            else:
                axof[c] = ax
    axes = [axof[c] for c in out]
    var = {}
    for p, c in enumerate(out):
        var[c] = [atomP(v) for v in axvars(p, axof[c])]
    summed = [c for c in axof if c not in out]
    svs = {}
    for c in summed:
        svs[c] = [fresh_ix() for _ in range(axof[c].nv)]
        var[c] = [atomP(v) for v in svs[c]]
    body = ONE
    for lab, a in zip(ins, arrs):
        idx = []
        for c, ax in zip(lab, a.axes):
            if const(ax.dim) == 1 and const(axof[c].dim) != 1:
                idx.append([ZERO])
            else:
                idx.append(var[c])
        body = mul(body, a.at(idx))
    for c in summed:
        body = sum_term(axof[c], svs[c], body)
    return Arr(axes, body, promote(*arrs))


def transpose(a, perm=None):
    nd = a.ndim
    if perm is None:
        perm = list(range(nd))[::-1]
    perm = [p % nd for p in perm]
    if sorted(perm) != list(range(nd)):
        raise ShapeErr('axes do not match array')
    axes = [a.axes[p] for p in perm]
    idx = [None] * nd
    for newp, p in enumerate(perm):
        idx[p] = [atomP(v) for v in axvars(newp, a.axes[p])]
    return Arr(axes, a.at(idx), a.dt)


def squeeze(a, axis=None):
    items = []
    for p, ax in enumerate(a.axes):
        one = not ax.sel and const(ax.dim) == 1
        if axis is None:
            drop = one
        else:
            axs = [x % a.ndim for x in (axis if isinstance(axis, (list, tuple)) else [axis])]
            drop = p in axs
            if drop and not one:
                raise ShapeErr('cannot squeeze axis of length %r' % ax)
        items.append(('int', ZERO) if drop else ('slice', None, None, None))
    r = getitem(a, items)
    return r


def prod(dims):
    r = ONE
    for d in dims:
        r = mul(r, d)
    return r


def reshape(a, shape):
    """shape: list of terms (-1 allowed once)"""
    dims = [ax.dim for ax in a.axes]
    shape = list(shape)
    minus = [i for i, s in enumerate(shape) if const(s) == -1]
    tot = prod(dims)
    if minus:
        other = prod([s for i, s in enumerate(shape) if i not in minus])
        q = div(tot, other)
        shape[minus[0]] = q
    if not eq(prod(shape), tot):
        raise ShapeErr('cannot reshape size %s into %s' % (brief(tot, 80), [brief(s, 40) for s in shape]),
                       not tot.opq and not any(s.opq for s in shape))
    if len(shape) == len(dims) and all(eq(s, d) for s, d in zip(shape, dims)):
        return a.with_()
    # insert/remove length-1 axes
    nz_old = [p for p, d in enumerate(dims) if const(d) != 1]
    nz_new = [p for p, d in enumerate(shape) if const(d) != 1]
    if len(nz_old) == len(nz_new) and all(eq(dims[p], shape[q]) for p, q in zip(nz_old, nz_new)):
        axes = []
        idx = [[ZERO]] * a.ndim
        for q, d in enumerate(shape):
            if q in nz_new:
                p = nz_old[nz_new.index(q)]
                axes.append(a.axes[p])
                idx[p] = [atomP(v) for v in axvars(q, a.axes[p])]
            else:
                axes.append(S(1))
        return Arr(axes, a.at(idx), a.dt)
    if any(ax.sel for ax in a.axes):
        if len(shape) == 1:
            # flatten: the selected elements in row-major order
            dims2, vs, conds, idx = [], [], TRUE, []
            for ax in a.axes:
                v = [fresh_ix() for _ in range(ax.nv)]
                vs += v
                idx.append([atomP(x) for x in v])
                dims2 += list(ax.dims) if ax.sel else [ax.dim]
                if ax.sel:
                    conds = And(conds, lam_open(ax.lam, [atomP(x) for x in v]))
            ax = Sel(dims2, mklam(vs, conds))
            body = subst(a.at(idx), {v: atomP(x) for v, x in zip(vs, axvars(0, ax))})
            return Arr([ax], body, a.dt)
        raise Unmodelled('reshape of selection')
    axes = [S(d) for d in shape]
    # linear index of the new shape
    lin = ZERO
    for q, d in enumerate(shape):
        lin = add(mul(lin, d), atomP(IX('@%d' % q)) if const(d) != 1 else ZERO)
    idx = [None] * a.ndim
    rem = lin
    bounds = {IX('@%d' % q): d for q, d in enumerate(shape)}
    for p in range(a.ndim - 1, -1, -1):
        if const(dims[p]) == 1:
            idx[p] = [ZERO]
            continue
        if p == 0 or all(const(d) == 1 for d in dims[:p]):
            idx[p] = [rem]
        else:
            r, qd = divmod_term(rem, dims[p], bounds)
            idx[p] = [r]
            rem = qd
    return Arr(axes, a.at(idx), a.dt)


def divmod_term(e, d, bounds):
    """(e mod d, e div d) for non-negative integer terms; exact for q*d + r with r a bounded index"""
    if isinstance(e, P):
        quo = {}
        rem = {}
        for m, c in e.terms:
            t = mkP({m: c})
            q = div(t, d)
            if isint(q):
                for mm, cc in q.terms:
                    quo[mm] = quo.get(mm, Fr(0)) + cc
            else:
                rem[m] = c
        r = mkP(rem)
        q = mkP(quo)
        ra = single_atom(r)
        if r is ZERO or (ra is not None and ra in bounds and eq(bounds[ra], d)):
            return r, q
        cd = const(d)
        # r = sum of bounded parts, total < d ?
        if cd is not None and _upper(r, bounds) is not None and _upper(r, bounds) < cd:
            return r, q
        if len(rem) > 1 or ra is not None:
            # mixed radix remainder, e.g. i*M + j < N*M = d
            if _lt(r, d, bounds):
                return r, q
    return mk('imod', e, d), mk('fdiv', e, d)


def _upper(r, bounds):
    u = Fr(0)
    for m, c in r.terms:
        if c < 0:
            return None
        v = c
        for a, x in m:
            if a in bounds and const(bounds[a]) is not None:
                v *= (const(bounds[a]) - 1) ** int(x)
            else:
                return None
        u += v
    return u


def _lt(r, d, bounds):
    m = {}
    for mono, c in r.terms:
        if c < 0:
            return False
        for a, x in mono:
            if a in bounds:
                m[a] = sub(bounds[a], ONE)
    mx = subst(r, m)
    return sgnset(sub(d, mx)) <= frozenset('P')


def tile(a, reps):
    """reps list of terms"""
    nd = max(a.ndim, len(reps))
    while a.ndim < nd:
        a = getitem(a, [('new',), ('ell',)])
    reps = [ONE] * (nd - len(reps)) + list(reps)
    axes = []
    idx = []
    for p, (ax, r) in enumerate(zip(a.axes, reps)):
        if const(r) == 1:
            axes.append(ax)
            idx.append([atomP(v) for v in axvars(p, ax)])
        elif const(ax.dim) == 1 and not ax.sel:
            axes.append(S(r))
            idx.append([ZERO])
        elif ax.sel:
            raise Unmodelled('tile of selection')
        else:
            n = mul(ax.dim, r)
            axes.append(S(n))
            idx.append([mk('imod', atomP(axvars(p, axes[-1])[0]), ax.dim)])
    return Arr(axes, a.at(idx), a.dt)


def stack_list(arrs, dt=None):
    """np.array([a0, a1, ...]) along a new first axis (constant length)"""
    n = len(arrs)
    if n == 0:
        return Arr((S(0),), ZERO, dt or 'f8')
    axes, maps = broadcast_axes(arrs)
    for a in arrs:
        if a.ndim != len(axes):
            raise ShapeErr('inhomogeneous list')
    nax = [S(n)] + list(axes)
    shifted = []
    for a in arrs:
        idx = [[atomP(v) for v in axvars(p + 1, ax)] for p, ax in enumerate(a.axes)]
        shifted.append(a.at(idx))
    v = atomP(IX('@0'))
    b = shifted[-1]
    bools = all(is_bool(x) for x in shifted)
    if not bools:
        shifted = [b2n(x) for x in shifted]
        b = shifted[-1]
    for k in range(n - 2, -1, -1):
        b = ite(eq0(sub(v, num(k))), shifted[k], b)
    return Arr(nax, b, dt or promote(*arrs))


def concat(arrs, p):
    """concatenate along axis p"""
    base = arrs[0]
    nd = base.ndim
    p = p % nd
    tot = ZERO
    offs = []
    for a in arrs:
        if a.ndim != nd:
            raise ShapeErr('concatenate of different dimensions')
        offs.append(tot)
        if a.axes[p].sel:
            raise Unmodelled('concatenate of selections')
        tot = add(tot, a.axes[p].dim)
        for q in range(nd):
            if q != p and not a.axes[q].same(base.axes[q]):
                raise ShapeErr('concatenate axes differ')
    axes = list(base.axes)
    axes[p] = S(tot)
    v = atomP(IX('@%d' % p))
    body = None
    for a, o in reversed(list(zip(arrs, offs))):
        idx = [[atomP(x) for x in axvars(q, ax)] for q, ax in enumerate(axes)]
        idx[p] = [sub(v, o)]
        e = a.at(idx)
        body = e if body is None else ite(gt0(sub(add(o, a.axes[p].dim), v)), b2n(e), b2n(body))
    return Arr(axes, body, promote(*arrs))


# ------------------------------------------------------------------ equality of arrays
def arr_eq(a, b, cond=TRUE):
    """None if equal, else a message.  Axes compared first, then bodies (constant axes pointwise)."""
    if a.ndim != b.ndim:
        return 'has %d dimensions instead of %d' % (a.ndim, b.ndim)
    for p, (x, y) in enumerate(zip(a.axes, b.axes)):
        if not x.same(y):
            return 'axis %d has length %s instead of %s' % (p, brief(x.dim, 80), brief(y.dim, 80))
    return body_eq(a.body, b.body, [v for p, ax in enumerate(a.axes) for v in axvars(p, ax)],
                   [d for ax in a.axes for d in (ax.dims if ax.sel else [ax.dim])], cond)


def body_eq(x, y, vs, dims, cond=TRUE):
    cs = [(v, int(const(d))) for v, d in zip(vs, dims) if const(d) is not None and const(d) <= 24]
    combos = [{}]
    for v, n in cs:
        combos = [dict(c, **{v.args[0]: k}) for c in combos for k in range(n)]
        if len(combos) > 3000:
            raise Unmodelled('too many constant positions')
    for c in combos:
        m = {v: num(c[v.args[0]]) for v, n in cs}
        xx, yy, cc = subst(x, m), subst(y, m), subst(cond, m)
        xx, yy = restrict(xx, cc), restrict(yy, cc)
        if cc is FALSE:
            continue
        if is_bool(xx) != is_bool(yy):
            xx, yy = b2n(xx), b2n(yy)
        if not eq(xx, yy):
            d = diff_msg(xx, yy)
            at = ('at ' + ', '.join('%s=%d' % kv for kv in sorted(c.items())) + ': ') if c else ''
            return at + d
    return None


def diff_msg(x, y):
    """first differing case of two diagrams"""
    path = []
    while True:
        t = None
        for e in (x, y):
            if isinstance(e, D) and (t is None or e.test.id < t.id):
                t = e.test
        if t is None:
            break
        for i, s in enumerate(t.states):
            cx, cy = cof(x, t, i), cof(y, t, i)
            if is_bool(cx) != is_bool(cy):
                cx, cy = b2n(cx), b2n(cy)
            if not eq(cx, cy):
                nm = {'P': '> 0', 'Z': '= 0', 'N': '< 0', 'X': 'is NaN', 'T': 'true', 'F': 'false'}[s]
                path.append('%s %s' % (brief(t.x, 120), nm))
                x, y = cx, cy
                break
        else:
            return 'differs (opaque)'
    return ('where ' + ' and '.join(path) + ' ' if path else '') + 'is %s instead of %s' % (brief(x, 400), brief(y, 400))
