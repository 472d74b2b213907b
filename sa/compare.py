"""Deciding equality of abstract values with a specification."""
from .interp import *
from . import valuation
from .valuation import refute


class Verdict(object):
    """msg None: equal.  Otherwise definite tells whether an interpretation separates the two."""

    def __init__(self, msg=None, definite=True):
        self.msg, self.definite = msg, definite

    def __bool__(self):
        return self.msg is None


OK = Verdict()


def by_equalities(e, memo=None):
    """where a test says that an integer quantity equals another, the one is written for the other"""
    if not isinstance(e, D):
        return e
    memo = {} if memo is None else memo
    if e.id in memo:
        return memo[e.id]
    t = e.test
    kids = [by_equalities(k, memo) for k in e.kids]
    if t.kind == 'sgn' and 'Z' in t.states and isinstance(t.x, P):
        z = t.states.index('Z')
        sol = []
        for m, c in t.x.terms:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].isint and m[0][0].op not in ('ix', 'bv', 'dim'):
                a = m[0][0]
                rest = mul(num(-1 / c), sub(t.x, mul(num(c), atomP(a))))
                if not atoms(rest, lambda b: b is a):
                    sol.append((a.id, a, rest))
        if sol:
            _, a, rest = max(sol, key=lambda s: s[0])
            kids[z] = map_atoms(kids[z], lambda b: rest if b is a else None)
    r = memo[e.id] = case(t, kids)
    return r


def cmp_body(x, y, vs, dims, cond=TRUE):
    """equality of two terms with free index variables vs ranging over dims"""
    x, y = restrict(x, cond), restrict(y, cond)
    cs = [(v, int(const(d))) for v, d in zip(vs, dims) if const(d) is not None and const(d) <= 24]
    combos = [{}]
    for v, n in cs:
        combos = [dict(c, **{v.args[0]: k}) for c in combos for k in range(n)]
    if len(combos) > 3000:
        return Verdict('too many constant positions', False)
    und = None
    rest = [(v, d) for v, d in zip(vs, dims) if not any(v is c for c, n in cs)]
    for c in combos:
        m = {v: num(c[v.args[0]]) for v, n in cs}
        xx, yy, cc = (subst(x, m), subst(y, m), subst(cond, m)) if m else (x, y, cond)
        xx, yy = restrict(xx, cc), restrict(yy, cc)
        if cc is FALSE:
            continue
        if is_bool(xx) != is_bool(yy):
            xx, yy = b2n(xx), b2n(yy)
        if not eq(xx, yy):
            xx, yy = (drop_guards(e, [v for v, d in rest] + [num(k) for k in c.values()], [d for v, d in rest] + [d for v, d in zip(vs, dims) if v.args[0] in c])
                      for e in (xx, yy))
        if not eq(xx, yy):
            xx, yy = by_equalities(xx), by_equalities(yy)
        if eq(xx, yy):
            continue
        at = ('at ' + ', '.join('%s=%d' % kv for kv in sorted(c.items())) + ': ') if c else ''
        msg = at + diff_msg(xx, yy)
        sep = refute(xx, yy, cc, [v for v, d in rest], [d for v, d in rest])
        if sep is not None:
            return Verdict(msg + ' (' + sep + ')', True)
        und = und if und is not None else Verdict('normal forms differ, none of %d interpretations separates them: ' % valuation.LAST[0] + msg, False)
    return OK if und is None else und


def cmp_arr(a, b, cond=TRUE):
    """array a (found) against array b (specified)"""
    if a.ndim != b.ndim:
        return Verdict('has %d dimensions instead of %d' % (a.ndim, b.ndim), not any(x.opq() for x in a.axes + b.axes))
    und = None
    for p, (x, y) in enumerate(zip(a.axes, b.axes)):
        if not x.same(y):
            if not x.sel and not y.sel:
                v = cmp_body(x.dim, y.dim, [], [], cond)
                if v:
                    continue
                if not v.definite and cond is not FALSE:
                    # the lengths may agree under the condition: the elements decide
                    und = Verdict('axis %d has length %s instead of %s' % (p, brief(x.dim, 80), brief(y.dim, 80)), False)
                    continue
                return Verdict('axis %d has length %s instead of %s' % (p, brief(x.dim, 80), brief(y.dim, 80)), v.definite)
            return Verdict('axis %d has length %s instead of %s' % (p, brief(x.dim, 80), brief(y.dim, 80)),
                           not (x.opq() or y.opq()))
    r = cmp_body(a.body, b.body, [v for p, ax in enumerate(a.axes) for v in axvars(p, ax)],
                 [d for ax in a.axes for d in (ax.dims if ax.sel else [ax.dim])], cond)
    return r if und is None or not r and r.definite else und


def cases_of(it, v, cond=TRUE, depth=0):
    """[(condition, non-Phi value)] of a merged value"""
    if isinstance(v, Phi) and depth < 40:
        out = []
        for c, x in ((And(cond, v.c), v.a), (And(cond, Not(v.c)), v.b)):
            if c is not FALSE:
                out += cases_of(it, x, c, depth + 1)
        return out
    return [(cond, v)]


def cmp_val(it, v, spec, cond=TRUE):
    """abstract value against an Arr specification, leaf by leaf of merged values"""
    und = None
    if v is None:
        return Verdict('never returns a value', cond is not FALSE and not cond.opq)
    for c, x in cases_of(it, v, cond):
        if x is UNBOUND:
            r = Verdict('is unbound %s' % (('where ' + brief(c, 150)) if c is not TRUE else ''), not c.opq)
        elif isinstance(x, Opq):
            r = Verdict('unknown value (%s)' % x.why, False)
        else:
            a = None
            try:
                a = it.arr(x)
            except (Unmodelled, ShapeErr):
                pass
            except Dead:
                pass
            if not isinstance(a, Arr):
                r = Verdict('is %s, not a number or array' % kind_of(it, x), not c.opq)
            else:
                r = cmp_arr(a, spec, c)
        if not r:
            if r.definite and not c.opq:
                return r
            und = und if und is not None else Verdict(r.msg, False)
    return OK if und is None else und


def kind_of(it, x):
    if x is None or isinstance(x, (str, bool)):
        return repr(x)
    if isinstance(x, Tup):
        return 'a tuple of %d' % len(x.items)
    if isinstance(x, Ref):
        return type(it.heap[x.cid]).__name__.replace('Cell', '').lower() or 'object'
    return type(x).__name__
