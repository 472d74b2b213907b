"""Canonical terms of the value-flow graphs.

Numeric terms are polynomials with rational coefficients and rational exponents over interned
atoms (inputs, index variables, applications of library functions to closures).  Conditional terms
are ordered multi-valued decision diagrams whose tests are sign classes (positive, zero, negative,
NaN) of polynomials, or boolean atoms.  Everything is interned, so syntactic identity of canonical
forms is object identity.  Boolean terms are the same diagrams with TRUE/FALSE leaves.
"""
from fractions import Fraction as Fr
import itertools
import sys

sys.setrecursionlimit(20000)

_tab = {}
_cnt = itertools.count(1)
ALL = frozenset('PZNX')
EMPTY = frozenset()


class Node(object):
    __slots__ = ('id', 'fv', 'hgt', 'opq', '_s')

    def __repr__(self):
        return show(self)


class Bool(Node):
    __slots__ = ('val',)


class Atom(Node):
    __slots__ = ('op', 'args', 'sgn', 'isint')


class P(Node):
    __slots__ = ('terms', '_sgn')


class Test(Node):
    __slots__ = ('kind', 'x', 'states')


class D(Node):
    __slots__ = ('test', 'kids')


class Lam(Node):
    __slots__ = ('nb', 'body')


def _mkbool(v):
    b = Bool()
    b.val = v
    b.id = next(_cnt)
    b.fv = EMPTY
    b.hgt = 0
    b.opq = False
    return b


TRUE = _mkbool(True)
FALSE = _mkbool(False)


def B(v):
    return TRUE if v else FALSE


def is_bool(e):
    while isinstance(e, D):
        e = e.kids[0]
    return isinstance(e, Bool)


def _children(args):
    for a in args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            for c in _children(a):
                yield c


def _meta(n, kids):
    fv = EMPTY
    h = 0
    o = False
    for k in kids:
        if k.fv:
            fv = fv | k.fv
        if k.hgt > h:
            h = k.hgt
        if k.opq:
            o = True
    n.fv = fv
    n.hgt = h
    n.opq = o


def _key(args):
    return tuple(a if not isinstance(a, (Node, tuple)) else
                 (('#', a.id) if isinstance(a, Node) else _key(a)) for a in args)


# ------------------------------------------------------------------ atoms
SIGNS = {'dim': 'P', 'exp': 'PX', 'count': 'PZ', 'ix': 'PZ', 'bv': 'PZ', 'nan': 'X', 'inf': 'P',
         'const': 'P', 'namedconst': 'P', 'unique_len': 'P', 'wavegrid': 'P', 'DL': 'P', 'respP': 'P', 'respn': 'P', 'nrows': 'P', 'nwords': 'P', 'nfiles': 'P', 'nsteps': 'P',
         'strlen': 'PZ', 'const_pi': 'P', 'selidx': 'PZ', 'argsort': 'PZ', 'argmax': 'PZ', 'argmin': 'PZ', 'searchsorted': 'PZ',
         'selpos': 'PZ', 'index': 'PZ', 'argunique': 'PZ'}
INTS = {'dim', 'ix', 'bv', 'count', 'trunc', 'argsort', 'argmax', 'argmin', 'selidx', 'fdiv', 'imod',
        'unique_len', 'index', 'argunique', 'searchsorted', 'respn', 'nrows',
        'nwords', 'nfiles', 'nsteps', 'strlen', 'selpos', 'iceil', 'ifloor', 'nanargmax', 'nanargmin'}


def raw_atom(op, *args):
    key = ('A', op, _key(args))
    a = _tab.get(key)
    if a is not None:
        return a
    a = Atom()
    a.op = op
    a.args = args
    a.id = next(_cnt)
    a._s = None
    _meta(a, _children(args))
    if op == 'ix':
        a.fv = frozenset([a.id])
    elif op == 'bv':
        a.fv = frozenset([a.id])
        a.hgt = args[0]
    elif op.startswith('opaque'):
        a.opq = True
    if op in ('in', 'fresh'):
        fl = args[1]
        a.sgn = frozenset(c for c in fl if c in 'PZNX')
        a.isint = 'i' in fl
    else:
        a.sgn = frozenset(SIGNS.get(op, 'PZNX'))
        a.isint = op in INTS
        if a.isint:
            a.sgn = a.sgn - {'X'}
    if op == 'interp' or op == 'rng' or op == 'trapz' or op == 'sumover' or op == 'ln' or op == 'grp':
        a.sgn = frozenset('PZN')
    if op == 'exp':
        a.sgn = frozenset('P')
    if op == 'sumover':
        lam = args[1]
        if not isinstance(lam.body, D):
            s = sgnset(lam.body)
            if s <= frozenset('PZ'):
                a.sgn = s
    if op == 'grp':
        q = args[0]
        a.sgn = sgnset(q)
        a.isint = False
    _tab[key] = a
    return a


def mkP(d):
    """polynomial from dict mono -> coef (drops zeros)"""
    if len(d) > 1:
        items = [(m, c) for m, c in d.items() if c != 0]
    else:
        items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    # NaN / inf absorption
    bad = [(m, c) for m, c in items if any(a.op in ('nan', 'inf') for a, e in m)]
    if bad and not (len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1 and
                    (items[0][0][0][0].op == 'nan' and items[0][1] == 1 or
                     items[0][0][0][0].op == 'inf' and abs(items[0][1]) == 1)):
        sg = set()
        for m, c in bad:
            if any(a.op == 'nan' for a, e in m):
                return NAN
            s = 1 if c > 0 else -1
            for a, e in m:
                if a.op == 'inf':
                    continue
                if a.sgn == frozenset('P'):
                    continue
                return NAN
            sg.add(s)
        if len(sg) == 2:
            return NAN
        return INF if 1 in sg else mkP({((INFA, Fr(1)),): Fr(-1)})
    terms = tuple(items)
    key = ('P', tuple((tuple((a.id, e) for a, e in m), c) for m, c in terms))
    p = _tab.get(key)
    if p is not None:
        return p
    p = P()
    p.terms = terms
    p.id = next(_cnt)
    p._s = None
    p._sgn = None
    _meta(p, (a for m, c in terms for a, e in m))
    _tab[key] = p
    return p


def num(x):
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else neg(INF)
        x = Fr(repr(x))
    elif not isinstance(x, Fr):
        x = Fr(x)
    return mkP({(): x})


def atomP(a):
    return mkP({((a, Fr(1)),): Fr(1)})


NANA = raw_atom('nan')
INFA = raw_atom('inf')
NAN = None
NAN = atomP(NANA)
INF = atomP(INFA)
ZERO = num(0)
ONE = num(1)


def const(p):
    """Fraction value of a constant polynomial, else None"""
    if isinstance(p, P):
        if not p.terms:
            return Fr(0)
        if len(p.terms) == 1 and p.terms[0][0] == ():
            return p.terms[0][1]
    return None


def single_atom(p):
    if isinstance(p, P) and len(p.terms) == 1:
        m, c = p.terms[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def isint(e):
    if isinstance(e, D):
        return all(isint(k) for k in e.kids)
    if isinstance(e, Bool):
        return True
    for m, c in e.terms:
        if c.denominator != 1:
            return False
        for a, x in m:
            if not a.isint or x.denominator != 1 or x < 0:
                return False
    return True


# ------------------------------------------------------------------ decision diagrams
_memo = {}


def mkTest(kind, x):
    key = ('T', kind, x.id)
    t = _tab.get(key)
    if t is not None:
        return t
    t = Test()
    t.kind = kind
    t.x = x
    t.id = next(_cnt)
    t._s = None
    _meta(t, (x,))
    if kind == 'flag':
        t.states = ('T', 'F')
    else:
        s = sgnset(x)
        t.states = tuple(c for c in 'PZNX' if c in s)
    _tab[key] = t
    return t


def mkD(test, kids):
    k0 = kids[0]
    same = True
    for k in kids:
        if k is not k0:
            same = False
            break
    if same:
        return k0
    if test.kind == 'sgn' and 'Z' in test.states:
        # equality substitution: the zero branch may be an instance of the other branches
        others = [k for s, k in zip(test.states, kids) if s != 'Z']
        if all(k is others[0] for k in others):
            zk = kids[test.states.index('Z')]
            for a, e in _solvable(test.x):
                if a.id in others[0].fv or a.id in zk.fv:
                    if subst(others[0], {a: e}) is subst(zk, {a: e}):
                        return others[0]
    key = ('D', test.id, tuple(k.id for k in kids))
    d = _tab.get(key)
    if d is not None:
        return d
    d = D()
    d.test = test
    d.kids = tuple(kids)
    d.id = next(_cnt)
    d._s = None
    _meta(d, (test,) + tuple(kids))
    _tab[key] = d
    return d


def _solvable(p):
    """index variables a with p == 0  <=>  a == e"""
    out = []
    for m, c in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('ix', 'bv') and abs(c) == 1:
            a = m[0][0]
            rest = mkP({mm: -cc / c for mm, cc in p.terms if mm != m})
            if a.id not in rest.fv:
                out.append((a, rest))
    return out


def cof(e, test, i):
    if isinstance(e, D) and e.test is test:
        return e.kids[i]
    return e


def apply(name, f, *es):
    """apply f leafwise to diagrams"""
    if not any(isinstance(e, D) for e in es):
        return f(*es)
    key = (name,) + tuple(e.id for e in es)
    r = _memo.get(key)
    if r is not None:
        return r
    t = min((e.test for e in es if isinstance(e, D)), key=lambda t: t.id)
    r = mkD(t, [apply(name, f, *[cof(e, t, i) for e in es]) for i in range(len(t.states))])
    # kids may themselves contain tests smaller than t (created by f): reorder
    if any(_mintest(k) is not None and _mintest(k).id <= t.id for k in getattr(r, 'kids', ())):
        r = _rebuild(t, [apply(name, f, *[cof(e, t, i) for e in es]) for i in range(len(t.states))])
    _memo[key] = r
    return r


def _mintest(e):
    return e.test if isinstance(e, D) else None


def test_is(t, i):
    return mkD(t, [TRUE if j == i else FALSE for j in range(len(t.states))])


def _rebuild(t, kids):
    """diagram 'case t of kids' where kids may contain tests ordered before t"""
    r = kids[-1]
    for i in range(len(kids) - 2, -1, -1):
        r = ite(test_is(t, i), kids[i], r)
    return r


def case(t, kids):
    if any(isinstance(k, D) and k.test.id <= t.id for k in kids):
        return _rebuild(t, kids)
    return mkD(t, kids)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = ('ite', c.id, a.id, b.id)
    r = _memo.get(key)
    if r is not None:
        return r
    t = min((e.test for e in (c, a, b) if isinstance(e, D)), key=lambda t: t.id)
    r = mkD(t, [ite(cof(c, t, i), cof(a, t, i), cof(b, t, i)) for i in range(len(t.states))])
    _memo[key] = r
    return r


def And(*bs):
    r = TRUE
    for b in bs:
        r = ite(r, b, FALSE)
    return r


def Or(*bs):
    r = FALSE
    for b in bs:
        r = ite(r, TRUE, b)
    return r


def Not(b):
    return ite(b, FALSE, TRUE)


def implies(a, b):
    return ite(a, b, TRUE) is TRUE


def flag(atom):
    return mkD(mkTest('flag', atom), [TRUE, FALSE])


def leaves(e, out=None):
    if out is None:
        out = []
    if isinstance(e, D):
        for k in e.kids:
            leaves(k, out)
    elif all(e is not o for o in out):
        out.append(e)
    return out


def tests(e, out=None):
    if out is None:
        out = []
    if isinstance(e, D):
        if e.test not in out:
            out.append(e.test)
        for k in e.kids:
            tests(k, out)
    return out


def restrict(e, c, _d=None):
    """simplify e knowing c (generalized cofactor)"""
    if c is TRUE or not isinstance(e, D):
        return e
    if c is FALSE:
        return e
    key = ('restr', e.id, c.id)
    r = _memo.get(key)
    if r is not None:
        return r
    t = e.test
    if isinstance(c, D) and c.test.id < t.id:
        # c's top test not in e on top: existentially quantify unless e mentions it below
        c2 = FALSE
        for k in c.kids:
            c2 = Or(c2, k)
        if c.test in tests(e):
            kids = [(restrict(e, k) if k is not FALSE else None) for k in c.kids]
            live = [k for k in kids if k is not None]
            r = case(c.test, [k if k is not None else live[0] for k in kids])
        else:
            r = restrict(e, c2)
    else:
        ck = c.kids if isinstance(c, D) and c.test is t else [c] * len(e.kids)
        kids = [(restrict(k, kk) if kk is not FALSE else None) for k, kk in zip(e.kids, ck)]
        live = [k for k in kids if k is not None]
        r = case(t, [k if k is not None else live[0] for k in kids])
    _memo[key] = r
    return r


# ------------------------------------------------------------------ signs
def _mulsgn(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == 'X' or y == 'X':
                out.add('X')
            elif x == 'Z' or y == 'Z':
                out.add('Z')
            else:
                out.add('P' if x == y else 'N')
    return frozenset(out)


def _powsgn1(s, e):
    if s == 'X':
        return 'X'
    if s == 'P':
        return 'P'
    if s == 'Z':
        return 'Z' if e > 0 else 'P'
    if e.denominator == 1:
        return 'P' if e.numerator % 2 == 0 else 'N'
    if e.denominator % 2 == 1:
        return 'X'
    return 'X'


def monosgn(m, c=Fr(1)):
    s = frozenset('P' if c > 0 else 'N')
    for a, e in m:
        s = _mulsgn(s, frozenset(_powsgn1(x, e) for x in a.sgn))
    return s


def sgnset(p):
    if isinstance(p, D):
        s = frozenset()
        for k in p.kids:
            s |= sgnset(k)
        return s
    if p._sgn is not None:
        return p._sgn
    if not p.terms:
        r = frozenset('Z')
    else:
        ss = [monosgn(m, c) for m, c in p.terms]
        u = frozenset().union(*ss)
        if len(ss) == 1:
            r = u
        else:
            x = frozenset('X') & u
            w = u - x
            if w <= frozenset('PZ'):
                r = (frozenset('P') if any(s == frozenset('P') for s in ss) else frozenset('PZ')) | x
            elif w <= frozenset('NZ'):
                r = (frozenset('N') if any(s == frozenset('N') for s in ss) else frozenset('NZ')) | x
            else:
                r = frozenset('PZN') | x
                # integer dims: N - 1 >= 0 etc.
                if isint(p):
                    d = {m: c for m, c in p.terms}
                    k = d.pop((), Fr(0))
                    if k < 0 and all(c > 0 for c in d.values()) and \
                            all(monosgn(m) == frozenset('P') for m in d):
                        lo = sum(d.values()) + k
                        # dims are at least 2 by convention
                        lo2 = sum(c * (2 ** sum(int(e) for a, e in m)) for m, c in d.items()) + k \
                            if all(a.op == 'dim' for m in d for a, e in m) else lo
                        if lo2 > 0:
                            r = frozenset('P')
                        elif lo2 == 0:
                            r = frozenset('PZ')
                    elif k > 0 and all(c < 0 for c in d.values()) and \
                            all(a.op == 'dim' for m in d for a, e in m):
                        hi = -sum(-c * (2 ** sum(int(e) for a, e in m)) for m, c in d.items()) + k
                        if hi < 0:
                            r = frozenset('N')
                        elif hi == 0:
                            r = frozenset('NZ')
                    if len(r) == 3:
                        for side in (1, -1):
                            b = _bound(p, side)
                            if b is not None:
                                bs = sgnset(b)
                                if not 'X' in bs and not ('P' if side > 0 else 'N') in bs:
                                    r = r & (bs | frozenset('N' if side > 0 else 'P'))
    p._sgn = r
    return r


def _largest(a):
    """the largest value of an integer quantity that is a position or a count, None if not known"""
    if a.op == 'selidx' and len(a.args) == 4 and isinstance(a.args[2], int):
        return sub(a.args[1][a.args[2]], ONE)
    if a.op in ('argsort', 'argmax', 'argmin') and isinstance(a.args[0], P):
        return sub(a.args[0], ONE)
    if a.op == 'searchsorted' and isinstance(a.args[0], P):
        return a.args[0]
    if a.op == 'count' and len(a.args[1]) == 1:
        return a.args[1][0]
    return None


def _bound(p, side):
    """a polynomial that p does not exceed (side 1), or that does not exceed p (side -1), without positions and counts"""
    r, some = ZERO, False
    for m, c in p.terms:
        x = mkP({m: c})
        if len(m) == 1 and m[0][1] == 1:
            b = _largest(m[0][0])
            if b is not None:
                if not isinstance(b, P):
                    return None
                some = True
                x = mul(num(c), b) if (c > 0) == (side > 0) else ZERO
        r = add(r, x)
    return r if some and isinstance(r, P) else None


def primitive(p, again=False):
    """p = c * m * q, q primitive with leading coefficient 1; returns (c, m(dict), q)"""
    items = p.terms
    if len(items) == 0:
        return Fr(0), (), ONE
    if len(items) == 1:
        m, c = items[0]
        return c, m, ONE
    common = dict(items[0][0])
    for m, c in items[1:]:
        dm = dict(m)
        new = {}
        for a in set(common) | set(dm):
            e1 = common.get(a, Fr(0))
            e2 = dm.get(a, Fr(0))
            e = min(e1, e2)
            if e != 0:
                new[a] = e
        common = new
    # only factor out of every term
    mono = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
    inv = tuple((a, -e) for a, e in mono)
    d = {}
    for m, c in items:
        mm, cc = mulmono(m, inv)
        d[mm] = d.get(mm, Fr(0)) + c * cc
    lead = max(d, key=lambda m: (sum(e for a, e in m), tuple((a.id, e) for a, e in m)))
    c0 = d[lead]
    q = mkP({m: c / c0 for m, c in d.items()})
    if not again and any(a.op == 'grp' and e >= 1 for m, c in q.terms for a, e in m):
        # dividing by a negative power of a group leaves that group unexpanded in the other terms
        r = _redgrp(q)
        if r is not q and len(r.terms) > 0:
            c1, m1, q1 = primitive(r, True)
            mm, cc = mulmono(mono, m1)
            return c0 * c1 * cc, mm, q1
    return c0, mono, q


_FLIP = {'P': 'N', 'N': 'P', 'Z': 'Z', 'X': 'X'}


def sgn_case(p, kids):
    """diagram selecting kids[s] by the sign class s of term p; kids: dict over PZNX"""
    if isinstance(p, D):
        return _lift1(lambda q: sgn_case(q, kids), p)
    if not p.terms:
        return kids['Z']
    s = sgnset(p)
    if len(s) == 1:
        return kids[next(iter(s))]
    c, m, q = primitive(p)
    factors = []
    for a, e in m:
        if a.sgn == frozenset('P'):
            continue
        if a.op == 'grp' and (e.denominator != 1 or True):
            factors.append((a.args[0], e))
        else:
            factors.append((atomP(a), e))
    if q is not ONE:
        factors.append((q, Fr(1)))

    def build(i, sg):
        if i == len(factors) or sg == 'X':
            return kids[sg]
        f, e = factors[i]
        a = single_atom(f)
        if a is not None and a.op == 'count' and len(a.args[1]) == 1:
            # as many as none: is there any?
            from .arrays import exists
            return ite(exists(a.args[1][0], a.args[0]), build(i + 1, sg), build(i + 1, 'Z' if e > 0 else 'X'))
        t = mkTest('sgn', f)
        ks = []
        for st in t.states:
            ps = _powsgn1(st, e)
            if ps == 'X' or sg == 'X':
                ns = 'X'
            elif ps == 'Z' or sg == 'Z':
                ns = 'Z'
            else:
                ns = 'P' if ps == sg else 'N'
            ks.append(build(i + 1, ns))
        if len(t.states) == 1:
            return ks[0]
        return case(t, ks)
    return build(0, 'P' if c > 0 else 'N')


def _lift1(f, e):
    if not isinstance(e, D):
        return f(e)
    return case(e.test, [_lift1(f, k) for k in e.kids])


def lift(f, *es):
    """apply f to the leaves of diagrams (f may return diagrams)"""
    ds = [e for e in es if isinstance(e, D)]
    if not ds:
        return f(*es)
    t = min((e.test for e in ds), key=lambda t: t.id)
    return case(t, [lift(f, *[cof(e, t, i) for e in es]) for i in range(len(t.states))])


def gt0(p):
    return sgn_case(p, {'P': TRUE, 'Z': FALSE, 'N': FALSE, 'X': FALSE})


def ge0(p):
    return sgn_case(p, {'P': TRUE, 'Z': TRUE, 'N': FALSE, 'X': FALSE})


def eq0(p):
    return sgn_case(p, {'P': FALSE, 'Z': TRUE, 'N': FALSE, 'X': FALSE})


def isnan(p):
    return sgn_case(p, {'P': FALSE, 'Z': FALSE, 'N': FALSE, 'X': TRUE})


def cmp(op, a, b):
    a = b2n(a)
    b = b2n(b)
    d = sub(a, b)
    if op == '>':
        return gt0(d)
    if op == '<':
        return gt0(neg(d))
    if op == '>=':
        return ge0(d)
    if op == '<=':
        return ge0(neg(d))
    if op == '==':
        return eq0(d)
    if op == '!=':
        return Not(eq0(d))
    raise KeyError(op)


def b2n(e):
    """boolean term -> 0/1 term"""
    if isinstance(e, Bool):
        return ONE if e.val else ZERO
    if isinstance(e, D) and is_bool(e):
        return ite(e, ONE, ZERO)
    return e


def n2b(e):
    if is_bool(e):
        return e
    return Not(eq0(e))


# ------------------------------------------------------------------ arithmetic
def mulmono(m1, m2):
    """product of monomials: returns (mono, coef)"""
    if not m1:
        return m2, Fr(1)
    if not m2:
        return m1, Fr(1)
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, Fr(0)) + e
    return _normmono(d)


def _normmono(d):
    coef = Fr(1)
    exps = [(a, e) for a, e in d.items() if a.op == 'exp' and e != 0]
    if exps and not (len(exps) == 1 and exps[0][1] == 1):
        tot = ZERO
        for a, e in exps:
            tot = add(tot, scale(a.args[0], e))
            del d[a]
        ex = expE(tot)
        (m, c), = ex.terms
        coef *= c
        for a, e in m:
            d[a] = d.get(a, Fr(0)) + e
    cs = [(a, e) for a, e in d.items() if a.op == 'const' and e.denominator == 1]
    for a, e in cs:
        coef *= a.args[0] ** int(e)
        del d[a]
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id)), coef


def _addP(a, b):
    d = dict(a.terms)
    for m, c in b.terms:
        d[m] = d.get(m, Fr(0)) + c
    return _redgrp(mkP(d))


def _mulP(a, b):
    ca = const(a)
    if ca is not None and not _special(b):
        return scale(b, ca)
    cb = const(b)
    if cb is not None and not _special(a):
        return scale(a, cb)
    d = {}
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            m, c = mulmono(m1, m2)
            d[m] = d.get(m, Fr(0)) + c * c1 * c2
    if not d and (_special(a) or _special(b)):
        return NAN
    p = mkP(d)
    return _redgrp(p)


def _special(p):
    return any(a.op in ('nan', 'inf') for m, c in p.terms for a, e in m)


def _redgrp(p):
    """expand positive integer powers of groups, cancel exact quotients"""
    for _ in range(20):
        changed = False
        for m, c in p.terms:
            for a, e in m:
                if a.op == 'grp' and e >= 1:
                    rest = tuple((x, y) for x, y in m if x is not a)
                    k = int(e)
                    fr = e - k
                    if fr != 0:
                        rest = tuple(sorted(rest + ((a, fr),), key=lambda ae: ae[0].id))
                    q = a.args[0]
                    t = mkP({rest: c})
                    for _i in range(k):
                        t = _mulraw(t, q)
                    d = {mm: cc for mm, cc in p.terms if mm != m}
                    for mm, cc in t.terms:
                        d[mm] = d.get(mm, Fr(0)) + cc
                    p = mkP(d)
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        # exact division
        groups = {}
        for m, c in p.terms:
            for a, e in m:
                if a.op == 'grp' and e < 0 and e.denominator == 1:
                    groups.setdefault((a, e), []).append((m, c))
        for (a, e), items in groups.items():
            q = a.args[0]
            if len(items) < len(q.terms):
                continue
            numer = {}
            for m, c in items:
                rest = tuple((x, y) for x, y in m if x is not a)
                numer[rest] = c
            quo, rem = _divide(numer, q)
            if quo is not None and len(rem) < len(numer) - len(quo) + 0:
                # quotient * q + rem ; accept when it shortens
                new = {mm: cc for mm, cc in p.terms if (mm, cc) not in items}
                for mm, cc in rem.items():
                    m2, c2 = mulmono(mm, ((a, e),))
                    new[m2] = new.get(m2, Fr(0)) + cc * c2
                for mm, cc in quo.items():
                    m2, c2 = mulmono(mm, ((a, e + 1),)) if e + 1 != 0 else (mm, Fr(1))
                    new[m2] = new.get(m2, Fr(0)) + cc * c2
                p = mkP(new)
                changed = True
                break
        if not changed:
            return p
    return p


def _mulraw(a, b):
    d = {}
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            m, c = mulmono(m1, m2)
            d[m] = d.get(m, Fr(0)) + c * c1 * c2
    return mkP(d)


def _lead(d):
    return max(d, key=lambda m: (sum(e for a, e in m), tuple((a.id, e) for a, e in m)))


def _divide(numer, q):
    qd = dict(q.terms)
    lq = _lead(qd)
    inv = tuple((a, -e) for a, e in lq)
    n = dict(numer)
    quo = {}
    rem = {}
    for _ in range(min(200, 2 * len(n) + 12)):
        if not n:
            break
        ln_ = _lead(n)
        cl = n[ln_]
        m, c = mulmono(ln_, inv)
        if any(e < 0 and not dict(ln_).get(a, Fr(0)) < 0 for a, e in m):
            rem[ln_] = cl
            del n[ln_]
            continue
        f = cl * c / qd[lq]
        quo[m] = quo.get(m, Fr(0)) + f
        for mm, cc in qd.items():
            m2, c2 = mulmono(mm, m)
            n[m2] = n.get(m2, Fr(0)) - f * cc * c2
            if n[m2] == 0:
                del n[m2]
    else:
        return None, None
    return quo, rem


def add(a, b):
    return apply('add', _addP, b2n(a), b2n(b))


def mul(a, b):
    return apply('mul', _mulP, b2n(a), b2n(b))


def scale(a, c):
    c = Fr(c)
    if isinstance(a, D):
        return mul(a, num(c))
    if c == 0:
        return NAN if _special(a) else ZERO
    return mkP({m: k * c for m, k in a.terms})


def neg(a):
    return mul(b2n(a), num(-1))


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, powE(b, Fr(-1)))


def _ratpow(c, q):
    """Fraction ** Fraction exactly if rational, else None"""
    if q.denominator == 1:
        return c ** int(q)

    def root(n, k):
        if n < 0:
            return None
        r = round(n ** (1.0 / k))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** k == n:
                return x
        return None
    a = root(c.numerator, q.denominator)
    b = root(c.denominator, q.denominator)
    if a is None or b is None:
        return None
    return Fr(a, b) ** q.numerator


def powE(a, q):
    q = Fr(q)
    return _lift1(lambda p: _powP(p, q), b2n(a))


def _powP(p, q):
    if q == 1:
        return p
    if q == 0:
        return ONE
    c = const(p)
    if c is not None:
        if c == 0:
            return ZERO if q > 0 else INF
        if c < 0 and q.denominator != 1:
            return NAN
        r = _ratpow(c, q)
        if r is not None:
            return num(r)
        return mkP({((raw_atom('const', c), q),): Fr(1)})
    if p is NAN:
        return NAN
    if _special(p):
        if p is INF:
            return INF if q > 0 else ZERO
        return NAN if q.denominator != 1 else (ZERO if q < 0 else NAN)
    if len(p.terms) > 1 and q.denominator == 1 and 0 < q <= 4:
        r = p
        for _ in range(int(q) - 1):
            r = _mulP(r, p)
        return r
    c, m, prim = primitive(p)
    if c < 0 and q.denominator != 1:
        if prim is ONE or True:
            # pull the sign into the group: (-x)^q
            if prim is ONE:
                # (-1)^q * m^q : keep as opaque-free group of the negated monomial
                if monosgn(m, c) <= frozenset('PZ'):
                    pass
                g = raw_atom('grp', p)
                return mkP({((g, q),): Fr(1)})
            prim = scale(prim, -1)
            c = -c
    out = _powP(num(c), q)
    d = {}
    res = out
    for a, e in m:
        ne = e * q
        if e.denominator == 1 and e.numerator % 2 == 0 and not (ne.denominator == 1 and ne.numerator % 2 == 0) \
                and 'N' in a.sgn:
            # (x^2)^(1/2) = |x|
            ab = absE(atomP(a))
            res = mul(res, powE(ab, ne))
        else:
            d[a] = d.get(a, Fr(0)) + ne
    mm, cc = _normmono(d)
    res = mul(res, mkP({mm: cc}))
    if prim is not ONE:
        if prim is not None and q.denominator == 1 and 0 < q <= 4:
            res = mul(res, _powP(prim, q))
        else:
            g = raw_atom('grp', prim)
            res = mul(res, mkP({((g, q),): Fr(1)}))
    return res


def absE(a):
    return _lift1(lambda p: sgn_case(p, {'P': p, 'Z': ZERO, 'N': neg(p), 'X': NAN}), b2n(a))


def maxE(a, b):
    return lift(lambda x, y: sgn_case(sub(x, y), {'P': x, 'Z': x, 'N': y, 'X': NAN}), b2n(a), b2n(b))


def minE(a, b):
    return lift(lambda x, y: sgn_case(sub(x, y), {'P': y, 'Z': x, 'N': x, 'X': NAN}), b2n(a), b2n(b))


def _ln_const(c):
    """ln of a positive Fraction as a polynomial over LN10, ln2, ln3, ln7 ..."""
    d = {}

    def addto(k, v):
        d[k] = d.get(k, 0) + v
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p_ in itertools.chain((2, 3, 5), range(7, 2000, 2)):
            while n % p_ == 0:
                addto(p_, s)
                n //= p_
        if n > 1:
            addto(n, s)
    five = d.pop(5, 0)
    if five:
        addto(10, five)
        addto(2, -five)
    r = ZERO
    for k, v in d.items():
        if v:
            r = add(r, scale(atomP(raw_atom('ln', num(k))), v))
    return r


LN10A = raw_atom('ln', num(10))
LN10 = atomP(LN10A)


def lnE(a):
    return _lift1(_lnP, b2n(a))


def _lnP(p):
    c = const(p)
    if c is not None:
        if c > 0:
            return _ln_const(c)
        return NAN if c < 0 else neg(INF)
    if _special(p):
        return INF if p is INF else NAN
    c, m, q = primitive(p)
    if c < 0:
        if q is ONE:
            return atomP(raw_atom('ln', p))
        q = scale(q, -1)
        c = -c
    r = _ln_const(c)
    for a, e in m:
        if a.op == 'exp':
            r = add(r, scale(a.args[0], e))
        elif a.op == 'grp':
            r = add(r, scale(atomP(raw_atom('ln', a.args[0])), e))
        else:
            r = add(r, scale(atomP(raw_atom('ln', atomP(a))), e))
    if q is not ONE:
        r = add(r, atomP(raw_atom('ln', q)))
    return r


def expE(a):
    return _lift1(_expP, b2n(a))


def _expP(p):
    if _special(p):
        return NAN if p is NAN else (INF if p is INF else ZERO)
    res = ONE
    rest = {}
    for m, c in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ln':
            inner = m[0][0].args[0]
            if const(inner) is not None:
                r = _ratpow(const(inner), c)
                if r is not None:
                    res = mul(res, num(r))
                    continue
            else:
                res = mul(res, powE(inner, c))
                continue
        rest[m] = c
    if rest:
        # split the constant log part c*ln(k): leave in the exponent
        ex = raw_atom('exp', mkP(rest))
        res = mul(res, atomP(ex)) if not isinstance(res, D) else mul(res, atomP(ex))
    return res


def log10E(a):
    return div(lnE(a), LN10)


def exp10E(a):
    return expE(mul(LN10, a))


def sinhE(a):
    return scale(sub(expE(a), expE(neg(a))), Fr(1, 2))


def coshE(a):
    return scale(add(expE(a), expE(neg(a))), Fr(1, 2))


def pow2(a, b):
    """general power"""
    def f(x, y):
        c = const(y)
        if c is not None and c.denominator <= 12:
            return _powP(x, c)
        return expE(mul(y, lnE(x)))
    return lift(f, b2n(a), b2n(b))


def trunc(e):
    """float -> int conversion"""
    def f(p):
        if isint(p):
            return p
        c = const(p)
        if c is not None:
            return num(int(c))
        return atomP(raw_atom('trunc', p))
    return _lift1(f, b2n(e))


# ------------------------------------------------------------------ generic application
CTORS = {}


def mk(op, *args):
    """application term; direct term arguments that are diagrams are lifted"""
    idx = [i for i, a in enumerate(args) if isinstance(a, (P, D, Bool))]
    if any(isinstance(args[i], D) for i in idx):
        def f(*leafs):
            aa = list(args)
            for i, l in zip(idx, leafs):
                aa[i] = l
            return mk(op, *aa)
        return lift(f, *[args[i] for i in idx])
    c = CTORS.get(op)
    if c is not None:
        return c(*args)
    return atomP(raw_atom(op, *args))


def inp(name, flags, *idx):
    return mk('in', name, flags, *idx)


def IX(name):
    return raw_atom('ix', name)


_fresh = itertools.count(1)


def fresh_ix(pref='v'):
    return raw_atom('ix', '%s%d' % (pref, next(_fresh)))


def mklam(vs, body):
    """closure over the index atoms vs"""
    h = 1 + body.hgt
    bvs = [raw_atom('bv', h, k) for k in range(len(vs))]
    body2 = subst(body, {v: atomP(b) for v, b in zip(vs, bvs)}) if vs else body
    # substitution cannot raise the height above h-1 except by the bound variables themselves
    key = ('L', len(vs), body2.id, h)
    l = _tab.get(key)
    if l is not None:
        return l
    l = Lam()
    l.nb = len(vs)
    l.body = body2
    l.id = next(_cnt)
    l._s = None
    l.fv = body2.fv - frozenset(b.id for b in bvs)
    l.hgt = h
    l.opq = body2.opq
    _tab[key] = l
    return l


def lam_open(l, es):
    """body of the closure with arguments es"""
    if l.nb == 0:
        return l.body
    return subst(l.body, {raw_atom('bv', l.hgt, k): e for k, e in enumerate(es)})


def subst(t, m):
    """simultaneous substitution of index/bound/other atoms by terms"""
    ids = frozenset(a.id for a in m)
    return _subst(t, m, ids, {})


def _subst(t, m, ids, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, ids, memo) if isinstance(x, (Node, tuple)) else x for x in t)
    if not (t.fv & ids):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if isinstance(t, P):
        r = ZERO
        acc = {}
        for mono, c in t.terms:
            if not any(a.fv & ids for a, e in mono):
                acc[mono] = acc.get(mono, Fr(0)) + c
                continue
            term = num(c)
            for a, e in mono:
                if a.fv & ids:
                    term = mul(term, powE(_subst(a, m, ids, memo), e))
                else:
                    term = mul(term, mkP({((a, e),): Fr(1)}))
            r = add(r, term)
        r = add(r, mkP(acc))
    elif isinstance(t, Atom):
        if t in m:
            r = m[t]
        else:
            args = [_subst(a, m, ids, memo) if isinstance(a, (Node, tuple)) else a for a in t.args]
            r = rebuild(t.op, args)
    elif isinstance(t, Lam):
        vs = [fresh_ix() for _ in range(t.nb)]
        body = lam_open(t, [atomP(v) for v in vs])
        r = mklam(vs, _subst(body, m, ids, {}))
    elif isinstance(t, D):
        kids = [_subst(k, m, ids, memo) for k in t.kids]
        if t.test.kind == 'flag':
            f = _subst(t.test.x, m, ids, memo) if (t.test.fv & ids) else t.test.x
            if isinstance(f, P):
                f = single_atom(f)
            if isinstance(f, (D, Bool)):
                r = ite(f, kids[0], kids[1])
            else:
                r = ite(flag(f), kids[0], kids[1])
        else:
            x = _subst(t.test.x, m, ids, memo)
            kd = {s: k for s, k in zip(t.test.states, kids)}
            dflt = kids[0]
            kd = {s: kd.get(s, kd.get('N') if s == 'X' and 'N' in kd else dflt) for s in 'PZNX'}
            r = sgn_case(x, kd)
    elif isinstance(t, Test):
        r = t
    else:
        r = t
    memo[t.id] = r
    return r


def rebuild(op, args):
    if op == 'exp':
        return expE(args[0])
    if op == 'ln':
        return lnE(args[0])
    if op == 'grp':
        return args[0]
    if op == 'trunc':
        return trunc(args[0])
    if op == 'const':
        return num(args[0])
    if op == 'any':
        from .arrays import exists
        return exists(*args)
    return mk(op, *args)


def subst_atom(t, old, new):
    """replace arbitrary atoms (not only index variables): old is an Atom; new a term"""
    return map_atoms(t, lambda a: new if a is old else None)


def map_atoms(t, f, memo=None):
    """rebuild t, replacing every atom a for which f(a) is not None by f(a)"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(map_atoms(x, f, memo) if isinstance(x, (Node, tuple)) else x for x in t)
    r = memo.get(t.id)
    if r is not None:
        return r
    if isinstance(t, P):
        r = ZERO
        for mono, c in t.terms:
            term = num(c)
            for a, e in mono:
                term = mul(term, powE(map_atoms(a, f, memo), e))
            r = add(r, term)
    elif isinstance(t, Atom):
        n = f(t)
        if n is not None:
            r = n
        elif not t.args or t.op in ('ix', 'bv', 'dim'):
            r = atomP(t)
        else:
            args = [map_atoms(a, f, memo) if isinstance(a, (Node, tuple)) else a for a in t.args]
            r = rebuild(t.op, args)
    elif isinstance(t, Lam):
        vs = [fresh_ix() for _ in range(t.nb)]
        body = lam_open(t, [atomP(v) for v in vs])
        r = mklam(vs, map_atoms(body, f, {}))
    elif isinstance(t, D):
        kids = [map_atoms(k, f, memo) for k in t.kids]
        if t.test.kind == 'flag':
            x = map_atoms(t.test.x, f, memo)
            if isinstance(x, P):
                x = single_atom(x)
            if isinstance(x, (Bool, D)):
                r = ite(x, kids[0], kids[1])
            else:
                r = ite(flag(x), kids[0], kids[1])
        else:
            x = map_atoms(t.test.x, f, memo)
            kd = {s: k for s, k in zip(t.test.states, kids)}
            kd = {s: kd.get(s, kids[0]) for s in 'PZNX'}
            r = sgn_case(x, kd)
    else:
        r = t
    memo[t.id] = r
    return r


def atoms(t, pred=None, out=None, seen=None):
    """all atoms occurring in t (closures included)"""
    if out is None:
        out, seen = [], set()
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, (Node, tuple)):
                atoms(x, pred, out, seen)
        return out
    if t.id in seen:
        return out
    seen.add(t.id)
    if isinstance(t, P):
        for m, c in t.terms:
            for a, e in m:
                atoms(a, pred, out, seen)
    elif isinstance(t, Atom):
        if pred is None or pred(t):
            out.append(t)
        atoms(t.args, pred, out, seen)
    elif isinstance(t, Lam):
        atoms(t.body, pred, out, seen)
    elif isinstance(t, D):
        atoms(t.test.x, pred, out, seen)
        for k in t.kids:
            atoms(k, pred, out, seen)
    return out


# ------------------------------------------------------------------ linear closure operators
def _sumover(dim, lam):
    cd = const(dim)
    if cd is not None and cd.denominator == 1 and 0 <= cd <= 24:
        r = ZERO
        for k in range(int(cd)):
            r = add(r, b2n(lam_open(lam, [num(k)])))
        return r
    v = fresh_ix()
    body = b2n(lam_open(lam, [atomP(v)]))
    if isinstance(body, D):
        # tests not depending on the bound variable are lifted out
        for t in tests(body):
            if v.id not in t.fv:
                return case(t, [_sumover(dim, mklam([v], _cofall(body, t, i)))
                                for i in range(len(t.states))])
        # one-hot selection: sum_j [j == e] f(j) = f(e)
        for t in tests(body):
            if t.kind == 'sgn' and 'Z' in t.states:
                for a, e in _solvable(t.x):
                    if a is v:
                        zi = t.states.index('Z')
                        oth = [_cofall(body, t, i) for i in range(len(t.states)) if i != zi]
                        if all(o is ZERO for o in oth):
                            return subst(_cofall(body, t, zi), {v: e})
        return atomP(raw_atom('sumover', dim, mklam([v], body)))
    r = ZERO
    for m, c in body.terms:
        inn = tuple((a, e) for a, e in m if v.id in a.fv)
        out = tuple((a, e) for a, e in m if v.id not in a.fv)
        if not inn:
            s = dim
        else:
            s = atomP(raw_atom('sumover', dim, mklam([v], mkP({inn: Fr(1)}))))
        r = add(r, mul(s, mkP({out: c})))
    return r


def _cofall(e, t, i):
    if not isinstance(e, D):
        return e
    if e.test is t:
        return e.kids[i]
    return case(e.test, [_cofall(k, t, i) for k in e.kids])


def cof_state(e, test, state):
    return _cofall(e, test, test.states.index(state))


def _linear(opname, lamix):
    """closure operator linear in its argument number lamix (a one-variable closure)"""
    def ctor(*args):
        lam = args[lamix]
        v = fresh_ix()
        body = b2n(lam_open(lam, [atomP(v)]))

        def build(inner):
            aa = list(args)
            aa[lamix] = mklam([v], inner)
            return atomP(raw_atom(opname, *aa))
        if isinstance(body, D):
            for t in tests(body):
                if v.id not in t.fv:
                    def sub1(i):
                        aa = list(args)
                        aa[lamix] = mklam([v], _cofall(body, t, i))
                        return ctor(*aa)
                    return case(t, [sub1(i) for i in range(len(t.states))])
            # common factors of all leaves could be pulled out; keep as is
            return build(body)
        if _special(body):
            return build(body)
        r = ZERO
        for m, c in body.terms:
            inn = tuple((a, e) for a, e in m if v.id in a.fv)
            out = tuple((a, e) for a, e in m if v.id not in a.fv)
            r = add(r, mul(build(mkP({inn: Fr(1)})), mkP({out: c})))
        return r
    return ctor


CTORS['sumover'] = _sumover


def _argsort(n, lam, e):
    """sorting a sequence that is already in sorted order leaves it alone"""
    v = fresh_ix()
    body = lam_open(lam, [atomP(v)])
    if v.id not in body.fv:
        return atomP(raw_atom('argsort', n, lam, e))
    for a in atoms(body, lambda a: a.op == 'argsort'):
        if len(a.args) == 3 and eq(a.args[0], n) and single_atom(a.args[2]) is v:
            if subst(lam_open(a.args[1], [atomP(v)]), {v: atomP(a)}) is body:
                return e
    return atomP(raw_atom('argsort', n, lam, e))


CTORS['argsort'] = _argsort
CTORS['trapz'] = _linear('trapz', 1)        # dim, y, x
CTORS['simps'] = _linear('simps', 1)


def grid_node(lamx, w):
    """the index k with w = x[k], when w is written as a sample of the grid"""
    if not isinstance(w, P) or not isinstance(lamx, Lam):
        return None
    seen = set()
    for m, c in w.terms:
        for a, e in m:
            for v in ([a] if a.op in ('ix', 'bv') else [x for x in a.args if isinstance(x, P) and x.id not in seen]):
                if isinstance(v, P):
                    v = single_atom(v)
                    if v is None or v.op not in ('ix', 'bv'):
                        continue
                if v.id in seen:
                    continue
                seen.add(v.id)
                if eq(lam_open(lamx, [atomP(v)]), w):
                    return atomP(v)
    return None


def _interp(dim, lamx, lamy, opts, w):
    k = grid_node(lamx, w)
    if k is not None:
        return lam_open(lamy, [k])
    # interpolation is linear in the tabulated values when out-of-range points give 0 or an error
    if opts[1] == 'fill0' or opts[1] == 'error':
        return _linear('interp', 2)(dim, lamx, lamy, opts, w)
    return atomP(raw_atom('interp', dim, lamx, lamy, opts, w))


CTORS['interp'] = _interp


def mk_interp(dim, lamx, lamy, opts, w):
    return lift(lambda ww: _interp(dim, lamx, lamy, opts, ww), w)


# ------------------------------------------------------------------ derivative
def diff(e, atom):
    def d(p):
        r = ZERO
        for m, c in p.terms:
            for i, (a, ex) in enumerate(m):
                da = datom(a)
                if da is ZERO:
                    continue
                rest = mkP({(): c})
                for j, (b, x) in enumerate(m):
                    if j != i:
                        rest = mul(rest, mkP({((b, x),): Fr(1)}))
                rest = mul(rest, scale(mkP({((a, ex - 1),): Fr(1)}) if ex != 1 else ONE, ex))
                r = add(r, mul(rest, da))
        return r

    def datom(a):
        if a is atom:
            return ONE
        if a.op == 'exp':
            return mul(atomP(a), diff(a.args[0], atom))
        if a.op == 'ln':
            return div(diff(a.args[0], atom), a.args[0])
        if a.op == 'grp':
            return diff(a.args[0], atom)
        return ZERO
    return _lift1(d, e)


# ------------------------------------------------------------------ equality
def eq(a, b):
    """semantic equality of terms by normal forms; clears denominators"""
    if a is b:
        return True
    if isinstance(a, Lam) or isinstance(b, Lam):
        if not (isinstance(a, Lam) and isinstance(b, Lam)) or a.nb != b.nb:
            return False
        vs = [atomP(fresh_ix()) for _ in range(a.nb)]
        return eq(lam_open(a, vs), lam_open(b, vs))
    ba, bb = is_bool(a), is_bool(b)
    if ba != bb:
        return False
    if ba:
        return ite(a, b, Not(b)) is TRUE
    return all(iszero(l) for l in leaves(apply('subx', _subx, a, b)))


def _subx(a, b):
    if a is b:
        return ZERO
    return sub(a, b)


def iszero(p):
    if isinstance(p, Bool):
        return not p.val
    if not p.terms:
        return True
    if _special(p):
        return False
    for _ in range(6):
        g = {}
        for m, c in p.terms:
            for a, e in m:
                if a.op == 'grp' and e < 0 and e.denominator == 1:
                    g[a] = min(g.get(a, Fr(0)), e)
        if not g:
            break
        for a, e in g.items():
            d = {}
            for m, c in p.terms:
                dm = dict(m)
                ne = dm.pop(a, Fr(0)) - e
                term = mkP({tuple(sorted(dm.items(), key=lambda ae: ae[0].id)): c})
                for _i in range(int(ne)):
                    term = _mulraw(term, a.args[0])
                for mm, cc in term.terms:
                    d[mm] = d.get(mm, Fr(0)) + cc
            p = mkP(d)
        if not p.terms:
            return True
    return not p.terms


# ------------------------------------------------------------------ printing
def show(t, depth=0, maxlen=400):
    s = _show(t, 0)
    return s


def _fr(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    s = repr(f)
    if Fr(s) == c and len(s) < 14:
        return s
    return '%d/%d' % (c.numerator, c.denominator) if c.denominator < 1000 else '%.6g' % f


def _show(t, d):
    if d > 40:
        return '...'
    if isinstance(t, str):
        return t
    if isinstance(t, tuple):
        return '(' + ','.join(_show(x, d + 1) for x in t) + ')'
    if not isinstance(t, Node):
        return str(t)
    if getattr(t, '_s', None):
        return t._s
    if isinstance(t, Bool):
        return 'true' if t.val else 'false'
    if isinstance(t, P):
        if not t.terms:
            return '0'
        parts = []
        for m, c in t.terms:
            fs = []
            for a, e in m:
                fs.append(_show(a, d + 1) + ('' if e == 1 else '^%s' % _fr(e)))
            if not fs:
                parts.append(_fr(c))
            elif c == 1:
                parts.append('*'.join(fs))
            elif c == -1:
                parts.append('-' + '*'.join(fs))
            else:
                parts.append(_fr(c) + '*' + '*'.join(fs))
        s = ' + '.join(sorted(parts)).replace('+ -', '- ')
        if len(t.terms) > 1 and d > 0:
            s = '(' + s + ')'
    elif isinstance(t, Atom):
        if t.op == 'ix':
            s = str(t.args[0])
        elif t.op == 'bv':
            s = 'b%d.%d' % t.args
        elif t.op == 'in':
            s = t.args[0] + ('[' + ','.join(_show(x, d + 1) for x in t.args[2:]) + ']' if len(t.args) > 2 else '')
        elif t.op == 'dim':
            s = t.args[0]
        elif t.op == 'grp':
            s = _show(t.args[0], d + 1)
        elif t.op == 'const':
            s = _fr(t.args[0])
        else:
            s = t.op + '(' + ', '.join(_show(x, d + 1) for x in t.args) + ')'
    elif isinstance(t, Lam):
        s = '\\' + ','.join('b%d.%d' % (t.hgt, k) for k in range(t.nb)) + '. ' + _show(t.body, d + 1)
    elif isinstance(t, Test):
        s = _show(t.x, d + 1)
    elif isinstance(t, D):
        if t.test.kind == 'flag':
            s = 'if(%s ? %s : %s)' % (_show(t.test.x, d + 1), _show(t.kids[0], d + 1), _show(t.kids[1], d + 1))
        else:
            grp = {}
            for st, k in zip(t.test.states, t.kids):
                grp.setdefault(k.id, [[], k])[0].append({'P': '>0', 'Z': '=0', 'N': '<0', 'X': 'nan'}[st])
            s = 'case(%s: %s)' % (_show(t.test.x, d + 1),
                                  '; '.join('|'.join(ss) + ' -> ' + _show(k, d + 1) for ss, k in grp.values()))
    else:
        s = '?'
    if len(s) > 4000:
        s = s[:4000] + '..#%d' % t.id
    try:
        t._s = s
    except AttributeError:
        pass
    return s


def brief(t, n=300):
    s = show(t)
    return s if len(s) <= n else s[:n] + '...[%d chars]' % len(s)


def dim(name):
    return atomP(raw_atom('dim', name))
