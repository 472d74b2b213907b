"""Helpers shared by the property rules."""
from ..contexts import *
from ..compare import *
from ..spec import *
from ..report import *
from .. import suite

SENTINEL = num(-9999)


def merged(it, v):
    """one Arr for a (possibly merged) value, or None"""
    try:
        a = it.arr(v)
    except (Unmodelled, ShapeErr, Dead, NeedPeel):
        return None
    return a if isinstance(a, Arr) else None


def parts(it, v, n, cond=TRUE):
    """[(cond, [n values] or None, found)]"""
    out = []
    for c, x in cases_of(it, v, cond):
        if isinstance(x, Tup):
            out.append((c, list(x.items) if len(x.items) == n else None, 'a tuple of %d' % len(x.items)))
        elif isinstance(x, Ref) and isinstance(it.heap[x.cid], ListCell):
            its = it.heap[x.cid].items
            out.append((c, list(its) if len(its) == n else None, '?' if any(isinstance(y, CondItem) for y in its) else 'a list of %d' % len(its)))
        elif n == 1:
            out.append((c, [x], ''))
        else:
            out.append((c, None, '?' if vague(it, x) else kind_of(it, x)))
    return out


def nth(out, rule, inst, where, it, v, n, k, cond):
    """the k-th of n returned values, merged over the cases; reports a wrong number of values"""
    res = None
    ps = parts(it, v, n, cond)
    for c, xs, found in reversed(ps):
        if xs is None:
            out.decide(rule, inst, 'returns %s instead of %d values' % (found, n), where, c.opq or found == '?')
            return None
        res = xs[k] if res is None else Phi(c, xs[k], res)
    return res


def check(out, rule, inst, it, v, spec, cond, where):
    r = cmp_val(it, v, spec, cond)
    if r:
        out.ok(rule, inst, where)
    elif r.definite:
        out.bad(rule, inst, r.msg, where)
    else:
        out.und(rule, inst, r.msg, where)
    return bool(r)


def check_terms(out, rule, inst, x, y, cond, where, vs=(), dims=()):
    r = cmp_body(x, y, list(vs), list(dims), cond)
    if r:
        out.ok(rule, inst, where)
    elif r.definite:
        out.bad(rule, inst, r.msg, where)
    else:
        out.und(rule, inst, r.msg, where)
    return bool(r)


def lost(out, rule, c, where):
    """the case never returns a value"""
    if c.result is None or c.pc is FALSE:
        rs = [r for r in c.raises]
        out.bad(rule, c.name, 'no result: %s' % '; '.join('%s at %s' % (r['exc'].name, r['where']) for r in rs[:3]), where)
        return True
    return False


def own(out, label):
    """result of another public method in the same configuration, as (case, Arr)"""
    c = out.case(label)
    if c is None:
        return None, None
    return c, merged(c.it, c.result)


def sub_in(t, f):
    """replace input atoms: f(name, flags, idx) -> term or None"""
    def g(a):
        if a.op == 'in':
            return f(a.args[0], a.args[1], a.args[2:])
        return None
    return map_atoms(t, g)


def arr_map(a, f):
    return Arr(a.axes, f(a.body), a.dt)


def dict_vals(it, v, keys, cond):
    """{key: merged value} of a dictionary result; missing keys -> None"""
    res = {}
    cs = []
    for c, x in cases_of(it, v, cond):
        d = None
        if isinstance(x, Ref) and isinstance(it.heap[x.cid], DictCell):
            d = {}
            for k, vv in it.heap[x.cid].items:
                if isinstance(k, CondItem):
                    kk = k.v if isinstance(k.v, str) else str(k.v)
                    d[kk] = Phi(k.c, vv, d.get(kk, UNBOUND))
                else:
                    d[k if isinstance(k, str) else str(k)] = vv
        cs.append((c, d))
    if any(d is None for c, d in cs):
        return None
    for k in keys:
        r = None
        for c, d in reversed(cs):
            x = d.get(k, UNBOUND)
            r = x if r is None else Phi(c, x, r)
        res[k] = r
    return res


def flat(it, v, cond, path=''):
    """[(path, cond, value)] of the numbers and arrays inside a result"""
    out = []
    for c, x in cases_of(it, v, cond):
        if isinstance(x, Tup):
            for k, y in enumerate(x.items):
                out += flat(it, y, c, '%s[%d]' % (path, k))
        elif isinstance(x, Ref) and isinstance(it.heap[x.cid], ListCell) and any(not isinstance(y, Arr) for y in it.heap[x.cid].items):
            for k, y in enumerate(it.heap[x.cid].items):
                out += flat(it, y, c, '%s[%d]' % (path, k))
        elif isinstance(x, Ref) and isinstance(it.heap[x.cid], DictCell):
            for k, y in it.heap[x.cid].items:
                out += flat(it, y, c, '%s[%s]' % (path, k if isinstance(k, str) else 'key'))
        else:
            out.append((path, c, x))
    return out


def vague(it, v, cond=TRUE):
    """whether the structure of a result is not fully known"""
    for c, x in cases_of(it, v, cond):
        if isinstance(x, Tup):
            if any(vague(it, y, c) for y in x.items):
                return True
        elif isinstance(x, Ref):
            k = it.heap.get(x.cid)
            if isinstance(k, ListCell):
                if any(vague(it, y, c) for y in k.items):
                    return True
            elif isinstance(k, DictCell):
                if k.sym is not None or any(not isinstance(a, str) or vague(it, y, c) for a, y in k.items):
                    return True
            elif isinstance(k, (ArrCell, ViewCell)):
                if not isinstance(it.arr(x), Arr):
                    return True
            else:
                return True
        elif not (x is None or x is UNBOUND or isinstance(x, (Arr, str, bool))):
            return True
    return False


def whole(it, v, cond):
    """{path: merged value}"""
    d = {}
    for p, c, x in reversed(flat(it, v, cond)):
        d[p] = x if p not in d else Phi(c, x, d[p])
    return d


def same_state(it, h1, h2, a, b, depth=0, seen=None):
    """None where the abstract values a (in heap h1) and b (in heap h2) have the same contents, else a message; '?' if unknown"""
    seen = seen if seen is not None else set()
    if depth > 8:
        return None
    if isinstance(a, Phi) and isinstance(b, Phi) and a.c is b.c:
        return same_state(it, h1, h2, a.a, b.a, depth + 1, seen) or same_state(it, h1, h2, a.b, b.b, depth + 1, seen)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.cid == b.cid and h1.get(a.cid) is h2.get(b.cid):
            # the cell is untouched; objects inside may still have changed
            pass
        if (a.cid, b.cid) in seen:
            return None
        seen.add((a.cid, b.cid))
        x, y = h1.get(a.cid), h2.get(b.cid)
        if x is None or y is None:
            return '?'
        if type(x) is not type(y):
            return 'is another kind of object'
        if isinstance(x, InstCell):
            for k in x.attrs:
                if k not in y.attrs:
                    return 'attribute %s is gone' % k
                m = same_state(it, h1, h2, x.attrs[k], y.attrs[k], depth + 1, seen)
                if m:
                    return m if m == '?' else '.%s %s' % (k, m.lstrip())
            return None
        if isinstance(x, ArrCell):
            if x is y or x.arr is y.arr:
                return None
            return same_arr(x.arr, y.arr)
        if isinstance(x, ListCell):
            if len(x.items) != len(y.items):
                return 'has another length'
            for p, q in zip(x.items, y.items):
                m = same_state(it, h1, h2, p, q, depth + 1, seen)
                if m:
                    return m
            return None
        if isinstance(x, DictCell):
            if x is y or x.items is y.items or x.items == y.items:
                return None
            return '?'
        if x is y:
            return None
        for s in getattr(type(x), '__slots__', ()):
            p, q = getattr(x, s, None), getattr(y, s, None)
            if s in ('origin', 'where') or p is q or p == q:
                continue
            return '?'
        return None
    if a is b:
        return None
    if isinstance(a, Arr) and isinstance(b, Arr):
        return same_arr(a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return 'has another length'
        for p, q in zip(a.items, b.items):
            m = same_state(it, h1, h2, p, q, depth + 1, seen)
            if m:
                return m
        return None
    try:
        if it.same_val(a, b):
            return None
    except Exception:
        pass
    if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Phi) or isinstance(b, Phi):
        return '?'
    if isinstance(a, Lib) and isinstance(b, Lib):
        return '?' if a.kind == b.kind else 'is now %s' % b.kind
    if a == b:
        return None
    return 'is now %s' % (kind_of_heap(b),)


def kind_of_heap(b):
    return repr(b)[:60]


def same_arr(x, y):
    r = cmp_arr(x, y)
    if r:
        return None
    return r.msg if r.definite else '?'


# ---------------------------------------------------------------- the registry
def unloaded(c):
    """(event, condition) for every band used from the registry under a condition in which nothing loaded it before"""
    it = c.it
    evs = list(c.world.ctor_events) if c.world is not None and c.world.ctor_events is not it.events else []
    evs += it.events
    loads, seen = [], set()
    for e in evs:
        if e.kind not in ('reg-load', 'reg-set', 'reg-get'):
            continue
        try:
            k = it.keyterm(e.data['key'])
        except Unmodelled:
            continue
        if e.kind != 'reg-get':
            loads.append((k, e.data['loops'], e.pc))
            continue
        miss = And(e.pc, Not(flag(raw_atom('inreg', k))))
        a = single_atom(k)
        for lk, loops, pc in loads:
            if miss is FALSE:
                break
            la = single_atom(lk)
            if eq(lk, k):
                miss = And(miss, Not(pc))
            elif la is not None and a is not None and la.op == a.op == 'in' and la.args[0] == a.args[0] and len(loops) and \
                    eq(la.args[2], atomP(loops[-1][0])):
                miss = And(miss, Not(subst(pc, {loops[-1][0]: a.args[2]})))
        if miss is not FALSE and (k, e.data['where']) not in seen:
            seen.add((k, e.data['where']))
            yield e, miss


def bands_loaded(out, rule, lab, c):
    n = 0
    for e, miss in unloaded(c):
        x = cmp_body(b2n(miss), ZERO, [], [])
        if x:
            continue
        n += 1
        (out.bad if x.definite and not miss.opq and not c.it.unmodelled else out.und)(rule, lab, 'uses the response %s, which nothing has loaded where %s' % (
            brief(c.it.keyterm(e.data['key']), 40), brief(miss, 140)), e.data['where'])
    if not n:
        out.ok(rule, lab, out.src(c.entry))
