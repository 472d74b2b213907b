"""Random interpretation of canonical terms (Gulwani & Necula style).

Two terms whose normal forms differ are only reported as different if some interpretation of their inputs and of the
uninterpreted library operations separates them.  Interpretations assign values to *terms*; no code of the analysed
package is involved.  If no interpretation separates them the obligation stays undecided.
"""
import math
import time
from .terms import *

M64 = (1 << 64) - 1


def _h(*xs):
    h = 0xcbf29ce484222325
    for x in xs:
        if isinstance(x, tuple):
            x = _h(*x)
        elif isinstance(x, str):
            y = 14695981039346656037
            for ch in x:
                y = ((y ^ ord(ch)) * 1099511628211) & M64
            x = y
        elif isinstance(x, bool):
            x = 7 + int(x)
        elif isinstance(x, float):
            if x != x:
                x = 991
            elif x in (float('inf'), float('-inf')):
                x = 993 if x > 0 else 995
            elif x == 0:
                x = 0
            else:
                x = hash('%.7g' % x) if False else _h('%.7g' % x)
        elif x is None:
            x = 17
        h = ((h ^ (int(x) & M64)) * 0x100000001b3) & M64
        h ^= h >> 29
        h = (h * 0xbf58476d1ce4e5b9) & M64
        h ^= h >> 32
    return h


def _u(h):
    return (h >> 11) / float(1 << 53)


class Skip(Exception):
    pass


def _fvs(x):
    if isinstance(x, Node):
        return x.fv
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= _fvs(y)
        return r
    return set()


def _ids(x):
    if isinstance(x, Node):
        return x.id
    if isinstance(x, tuple):
        return tuple(_ids(y) for y in x)
    return x


class Valuation(object):
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.memo2 = {}
        self.opq = False
        self.dims = {}
        self.budget = 200000
        u = _u(_h(seed, 'zr'))
        self.zlo = 0.05 if u < 0.5 else 0.0
        self.zhi = self.zlo + 1.0 + u
        self.used = {}
        self.dec = _u(_h(seed, 'dec')) < 0.3        # magnitudes over many decades
        self.span = 3.0
        self.focus = ()
        self.lits = ()
        self.near = {}

    def decade(self, name, idx=()):
        m = _u(_h(self.seed, name, 'decade'))
        if m > 0.7:
            return 1.0
        # everything together, the objects apart, or the elements apart
        k = idx[:1] if m < 0.25 else idx[-1:] if m < 0.4 else ()
        u = _u(_h(self.seed, name, 'decade', 1, *k))
        if k and m < 0.25 and _u(_h(self.seed, 'focus')) < 0.6:
            if idx[0] not in self.focus:
                return 1.0      # the object looked at, apart from the others
        elif k and u < 0.5:
            return 1.0
        v = _u(_h(self.seed, name, 'decade', 2, *k))
        return 10.0 ** ((2 * self.span + 2) * (2 * v - 1))

    # -------------------------------------------------------------- inputs
    def dim(self, name):
        if name not in self.dims:
            h = _h(self.seed, 'dim', name)
            self.dims[name] = 2 + h % 7 if name in ('C', 'K', 'M') else 3 + h % 3     # C, K, M: the lengths of inconsistent arrays
        return self.dims[name]

    def string(self, name, i):
        """the name at position i of a list of names: the bands of the fit are distinct, those of the map are among
        them, those of the output may repeat and are now and then those of the map"""
        from .arrays import LISTDIM
        if name not in ('RESP', 'RESPB') and _u(_h(self.seed, name, 'wild')) > 0.15:
            base = {'RESPMAP': 'RESP', 'RMAPB': 'RESPB'}.get(name)
            if name in ('RESPOUT', 'ROUTB') and _u(_h(self.seed, name, 'asmap')) < 0.25:
                return self.string('RESPMAP' if name == 'RESPOUT' else 'RMAPB', i)
            if base in LISTDIM:
                return self.string(base, _h(self.seed, name, i) % self.idim(LISTDIM[base], {}))
        if self.lits and _u(_h(self.seed, name, i, 'lit')) < 0.4:
            j = _h(self.seed, name, 'lit') + i
            if name not in ('RESP', 'RESPB') or i < len(self.lits):
                return self.ev(self.lits[j % len(self.lits)], {})
        if name in ('RESP', 'RESPB'):
            return 1000.0 + (_h(self.seed, name) % 4 + i) % 9
        return 1000.0 + _h(self.seed, name, i) % 9

    def names_of(self, lam, env):
        """the names of a list given by a closure, where their number is known"""
        from .arrays import LISTDIM
        e = single_atom(lam.body) if lam.nb == 1 else None
        if e is None or e.op != 'in' or e.args[0] not in LISTDIM:
            return None
        return [self.lam(lam, (k,), env) for k in range(self.idim(LISTDIM[e.args[0]], env))]

    def input(self, name, flags, idx):
        if not flags and len(idx) == 1:
            from .arrays import LISTDIM
            if name in LISTDIM:
                return self.string(name, int(idx[0]))
        if 'i' in flags:
            return _h(self.seed, name, tuple(idx)) % 3
        if idx and _u(_h(self.seed, name, 'tied')) < 0.08:
            # the same values in all objects, or in all realizations
            idx = list(idx)
            idx[-1 if _u(_h(self.seed, name, 'tied', 1)) < 0.5 else 0] = 0
        h = _h(self.seed, name, tuple(idx))
        u, v, w = _u(h), _u(_h(h, 1)), _u(_h(h, 2))
        if name.endswith('wave') and name != 'rwave' and idx:
            # wavelength grids of spectra increase
            h0 = _h(self.seed, name, tuple(idx[:-1]))
            if _u(_h(self.seed, 'gridmode')) < 0.4:
                st = 1 + _h(h0, 2) % 3
                return float(1 + _h(h0, 3) % 9 + idx[-1] * st + h % st)
            s0, st = 0.02 + _u(h0), 0.05 + 1.5 * _u(_h(h0, 1)) ** 2
            return s0 + (idx[-1] + 0.9 * u) * st
        if name in ('rwave', 'fitswl') and len(idx) == 1 and _u(_h(self.seed, 'gridmode')) < 0.4:
            # coinciding samples of curves and spectra
            return float(1 + 2 * ((idx[0] * 7 + _h(self.seed, name)) % 11) + h % 2)
        if name == 'zlo':
            return self.zlo
        if name == 'zhi':
            return self.zhi
        if name in ('z', 'redshift', 'z1'):
            mode = _u(_h(self.seed, 'zmode'))
            if self.dec and mode < 0.25:
                # redshifts that nearly coincide
                e = 10.0 ** (-8 * _u(_h(self.seed, 'znear')))
                return self.zlo + (self.zhi - self.zlo) * (0.2 + 0.6 * _u(_h(self.seed, 'zbase'))) + e * (v if u < 0.8 else 0.0)
            if mode < 0.7 or u < 0.6:
                return self.zlo + (self.zhi - self.zlo) * (v if u < 0.55 else [0.0, 1.0, 0.5][h % 3])
            if u < 0.8:
                return self.zhi + 0.01 + v
            return self.zlo - 0.01 - v * 0.3
        if name == 'bs':
            m = _u(_h(self.seed, 'bsmode'))
            if m < 0.25:
                r = 0.0
            elif m < 0.9:
                r = self.zlo + 0.3 * v
            else:
                r = 3 * v - 1
        else:
            cl = [c for c in 'PZNX' if c in flags] or ['P']
            m = _u(_h(self.seed, name, 'mode'))
            if m < 0.35 and 'P' in cl:
                c = 'P'
            elif u < 0.6 and 'P' in cl:
                c = 'P'
            else:
                c = cl[_h(h, 3) % len(cl)]
            if c == 'Z':
                return 0.0
            if c == 'X':
                return float('nan')
            if name == 'ext' and m > 0.8 and u > 0.6:
                return -v
            r = (0.05 + 3 * v) if w < 0.8 else (0.3 + 40 * v)
            if self.dec:
                r *= self.decade(name, tuple(idx))
            if c == 'N':
                r = -r
        return r

    # -------------------------------------------------------------- evaluation
    def ev(self, t, env):
        """numeric value of a term"""
        if t is TRUE or t is FALSE:
            return 1.0 if t is TRUE else 0.0
        fv = t.fv
        key = (t.id, tuple(sorted((i, env[i]) for i in fv if i in env))) if fv else t.id
        r = self.memo.get(key)
        if r is not None:
            if r[1]:
                self.opq = True
            return r[0]
        self.budget -= 1
        if self.budget < 0:
            raise Skip()
        o, self.opq = self.opq, False
        r = self._ev(t, env)
        self.memo[key] = (r, self.opq)
        self.opq = self.opq or o
        return r

    def _ev(self, t, env):
        if isinstance(t, D):
            try:
                k = self.state(t.test, env)
            except Skip:
                return self.either(t, env, self.ev)
            return self.ev(t.kids[k], env)
        if isinstance(t, P):
            return self.poly(t, env)[0]
        if isinstance(t, Atom):
            return self.atom(t, env)
        raise Skip()

    def poly(self, t, env):
        s, mag = 0.0, 0.0
        for m, c in t.terms:
            x = float(c)
            for a, e in m:
                v = self.ev(a, env)
                x = self.mulpow(x, v, e)
            s += x
            if x == x:
                mag += abs(x)
        if self.dec and 0 < abs(s) < 1e-6 * mag < float('inf'):
            raise Skip()        # digits lost
        return s, mag

    def mulpow(self, x, v, e):
        try:
            if e == 1:
                return x * v
            if v != v:
                return v
            if e.denominator == 1:
                return x * (v ** int(e))
            if v < 0:
                return float('nan')
            return x * v ** float(e)
        except ZeroDivisionError:
            if x == 0 or x != x:
                return float('nan')
            return math.copysign(float('inf'), x)
        except OverflowError:
            return float('inf')

    def state(self, test, env):
        if test.kind == 'flag':
            s = 'T' if self.flag(test.x, env) else 'F'
        else:
            if isinstance(test.x, P):
                o, self.opq = self.opq, False
                v, mag = self.poly(test.x, env)
                self.opq = self.opq or o
            else:
                v = self.ev(test.x, env)
                mag = abs(v)
            if v != v:
                s = 'X'
            elif abs(v) <= 1e-9 * mag or abs(v) < 1e-300:
                s = 'Z'
            else:
                s = 'P' if v > 0 else 'N'
        if s not in test.states:
            raise Skip()
        return test.states.index(s)

    def either(self, t, env, fn):
        """a test that has no value here (an index out of range, say) does not matter where the branches agree:
        tests stand in a fixed order, not in the order the program makes them"""
        if self.budget < 0:
            raise Skip()
        r = None
        for k in t.kids:
            v = fn(k, env)
            if r is not None and r != v and not (r != r and v != v):
                raise Skip()
            r = v
        return r

    def boolean(self, t, env):
        while isinstance(t, D):
            try:
                k = self.state(t.test, env)
            except Skip:
                return self.either(t, env, self.boolean)
            t = t.kids[k]
        if isinstance(t, Bool):
            return t.val
        return self.ev(t, env) != 0

    def idim(self, d, env):
        n = self.ev(d, env)
        if n != n or n < 0 or n > 4000:
            raise Skip()
        n = int(round(n))
        return n

    def lam(self, l, vals, env):
        """value of a closure at the integer arguments vals"""
        e2 = dict(env)
        for k, v in enumerate(vals):
            e2[raw_atom('bv', l.hgt, k).id] = v
        return self.ev(l.body, e2)

    def lamb(self, l, vals, env):
        e2 = dict(env)
        for k, v in enumerate(vals):
            e2[raw_atom('bv', l.hgt, k).id] = v
        return self.boolean(l.body, e2)

    def grid(self, dims, env):
        ns = [self.idim(d, env) for d in dims]
        tot = 1
        for n in ns:
            tot *= n
        if tot > 5000:
            raise Skip()
        out = [()]
        for n in ns:
            out = [x + (k,) for x in out for k in range(n)]
        return out

    def digest(self, args, env):
        out = []
        for a in args:
            if isinstance(a, Lam):
                pts = [()]
                for k in range(a.nb):
                    pts = [p + (j,) for p in pts for j in range(3)]
                if len(pts) > 100:
                    pts = pts[::max(1, len(pts) // 100)]
                out.append(tuple(float(self.lam(a, p, env)) if not is_bool(a.body) else self.lamb(a, p, env) for p in pts))
            elif isinstance(a, (P, D, Bool)):
                out.append(self.boolean(a, env) if is_bool(a) else float(self.ev(a, env)))
            elif isinstance(a, Atom):
                out.append(float(self.ev(a, env)))
            elif isinstance(a, tuple):
                out.append(self.digest(a, env))
            elif a is None or isinstance(a, (int, str, float, bool)):
                out.append(a)
            else:
                out.append(str(a))
        return tuple(out)

    def flag(self, a, env):
        if not isinstance(a, Atom):
            return self.ev(a, env) != 0
        if a.opq and a.op.startswith('opaque'):
            self.opq = True
        if a.op == 'any':
            return any(self.lamb(a.args[1], (k,), env) for k in range(self.idim(a.args[0], env)))
        if a.op == 'streq':
            return self.ev(a.args[0], env) == self.ev(a.args[1], env)
        if a.op == 'inlist':
            v = self.names_of(a.args[0], env)
            if v is not None:
                return self.ev(a.args[1], env) in v
        if a.op == 'listeq':
            from .arrays import LISTDIM
            if all(n in LISTDIM for n in a.args):
                ns = [self.idim(LISTDIM[n], env) for n in a.args]
                return ns[0] == ns[1] and all(self.string(a.args[0], k) == self.string(a.args[1], k) for k in range(ns[0]))
        if a.op == 'nnls_fails':
            return _u(_h(self.seed, 'nf', self.nnlskey(a, env), a.args[-1] if isinstance(a.args[-1], str) else 'm')) < 0.1
        return _u(_h(self.seed, a.op, self.digest(a.args, env))) < 0.5

    def nnlskey(self, a, env):
        la, lb, dims = a.args[0], a.args[1], a.args[2]
        nr, nc = self.idim(dims[0], env), self.idim(dims[1], env)
        A = [[self.lam(la, (i, j), env) for j in range(nc)] for i in range(nr)]
        b = [self.lam(lb, (i,), env) for i in range(nr)]
        g = tuple(sum(A[i][j] * A[i][k] for i in range(nr)) for j in range(nc) for k in range(nc))
        h = tuple(sum(A[i][j] * b[i] for i in range(nr)) for j in range(nc))
        return g + h

    def atom(self, a, env):
        op = a.op
        if self.near:
            q = self.near.get(nearkey(a))
            if q and _u(_h(self.seed, 'near', op, a.args[0])) < 0.5:
                # a quantity that the program compares with a number: values on both sides of it
                h = _h(self.seed, 'nearval', op, a.args[0], self.digest(a.args[1:], env))
                if _u(h) < 0.7:
                    return q[h % len(q)] * (0.4 + 1.2 * _u(_h(h, 1)))
        if op in ('ix', 'bv'):
            if a.id in env:
                return float(env[a.id])
            return float(_h(self.seed, a.op, tuple(str(x) for x in a.args)) % 3)
        if op == 'in':
            idx = [self.digest((x,), env)[0] for x in a.args[2:]]
            return float(self.input(a.args[0], a.args[1], idx))
        if op == 'dim':
            return float(self.dim(a.args[0]))
        if op == 'nan':
            return float('nan')
        if op == 'inf':
            return float('inf')
        if op == 'grp':
            return self.ev(a.args[0], env)
        if op == 'ln':
            v = self.ev(a.args[0], env)
            if v != v or v < 0:
                return float('nan')
            if self.dec and 0 < abs(v - 1) < 1e-6:
                raise Skip()
            return math.log(v) if v > 0 else float('-inf')
        if op == 'exp':
            try:
                return math.exp(self.ev(a.args[0], env))
            except OverflowError:
                return float('inf')
        if op == 'sumover':
            return sum(self.lam(a.args[1], (k,), env) for k in range(self.idim(a.args[0], env)))
        if op == 'count':
            return float(sum(self.lamb(a.args[0], p, env) for p in self.grid(a.args[1], env)))
        if op == 'trapz':
            n = self.idim(a.args[0], env)
            y = [self.lam(a.args[1], (k,), env) for k in range(n)]
            x = [self.lam(a.args[2], (k,), env) for k in range(n)]
            return sum(0.5 * (y[k] + y[k + 1]) * (x[k + 1] - x[k]) for k in range(n - 1))
        if op == 'simps':
            n = self.idim(a.args[0], env)
            x = tuple(self.lam(a.args[2], (k,), env) for k in range(n))
            hx = _h(self.seed, 'simps', x)
            return sum(self.lam(a.args[1], (k,), env) * _u(_h(hx, k)) for k in range(n))
        if op == 'interp':
            return self.interp(a, env)
        if op == 'nnls':
            return 5 * _u(_h(self.seed, 'nnls', self.nnlskey(a, env), self.digest(a.args[3:], env)))
        if op == 'root':
            return self.rootval(a, env)
        if op == 'index':
            v = self.names_of(a.args[0], env)
            if v is not None:
                k = self.ev(a.args[1], env)
                if k not in v:
                    raise Skip()
                return float(v.index(k))
        r = self.ordered(a, env)
        if r is not None:
            return r
        if op in ('trunc',):
            v = self.ev(a.args[0], env)
            return float(int(v)) if v == v and abs(v) < 1e15 else v
        if op in ('floor', 'ifloor'):
            v = self.ev(a.args[0], env)
            return float(math.floor(v)) if v == v and abs(v) < 1e15 else v
        if op == 'round':
            v = self.ev(a.args[0], env)
            return float(round(v)) if v == v and abs(v) < 1e15 else v
        if op in ('ceil', 'iceil'):
            v = self.ev(a.args[0], env)
            return float(math.ceil(v)) if v == v and abs(v) < 1e15 else v
        if op in ('fdiv', 'imod'):
            x, y = self.ev(a.args[0], env), self.ev(a.args[1], env)
            if not y or x != x or y != y:
                raise Skip()
            return float(x // y) if op == 'fdiv' else float(x % y)
        if op.startswith('opaque') or op in ('carr', 'uninit'):
            self.opq = True
        h = _h(self.seed, op, self.digest(a.args, env))
        if op == 'nwords':      # basel: 1221 wavelengths, then blocks of 6 + 1221 (1 to 3 of them)
            return float(1221 + 1227 * (1 + h % 3))
        if op in ('nrows', 'respn', 'nfiles'):
            return float(3 + h % 3)
        if a.isint:
            return float(h % 3)
        sg = a.sgn or frozenset('P')
        u = _u(h)
        r = 0.1 + 3 * u
        if self.dec and op in ('DL', 'rng'):
            r *= self.decade(op)
        if 'N' in sg and 'P' in sg and _u(_h(h, 5)) < 0.4:
            r = -r
        elif 'P' not in sg:
            r = -r if 'N' in sg else 0.0
        return r

    # ---- order statistics and selections
    def table(self, key, env, fn):
        fv = set()
        for x in key[1:]:
            fv |= _fvs(x)
        k = (key[0],) + tuple(_ids(x) for x in key[1:]) + tuple(sorted((i, env[i]) for i in fv if i in env))
        if k not in self.memo2:
            o, self.opq = self.opq, False
            v = fn()
            self.memo2[k] = (v, self.opq)
            self.opq = o
        v, o = self.memo2[k]
        self.opq = self.opq or o
        return v

    def values(self, n, lam, env):
        def f():
            v = [self.lam(lam, (k,), env) for k in range(self.idim(n, env))]
            if any(x != x for x in v):
                raise Skip()
            return v
        return self.table(('vals', n, lam), env, f)

    def partvals(self, parts, env):
        out = []
        for dims, mask, lam in parts:
            for p in self.grid(dims, env):
                if self.lamb(mask, p, env):
                    v = self.lam(lam, p, env)
                    if v != v:
                        raise Skip()
                    out.append(v)
        return out

    def uniq(self, parts, env):
        def f():
            u = []
            for v in sorted(self.partvals(parts, env)):
                if not u or v - u[-1] > 1e-9 * abs(v):
                    u.append(v)
            return u
        return self.table(('unique', parts), env, f)

    def position(self, seq, pos, env):
        k = self.ev(pos, env)
        if k != k or not -len(seq) <= k < len(seq):
            raise Skip()
        return seq[int(k)]

    def ordered(self, a, env):
        op = a.op
        if op in ('amax', 'amin'):
            if len(a.args) == 3:
                v = [self.lam(a.args[2], p, env) for p in self.grid(a.args[0], env) if self.lamb(a.args[1], p, env)]
            else:
                v = [self.lam(a.args[1], p, env) for p in self.grid(a.args[0], env)]
            if not v:
                raise Skip()
            if any(x != x for x in v):
                return float('nan')
            return max(v) if op == 'amax' else min(v)
        if op in ('argmax', 'argmin') and len(a.args) == 2:
            v = self.values(a.args[0], a.args[1], env)
            if not v:
                raise Skip()
            return float(v.index(max(v) if op == 'argmax' else min(v)))
        if op == 'argsort' and len(a.args) == 3:
            def f():
                v = self.values(a.args[0], a.args[1], env)
                return sorted(range(len(v)), key=lambda k: v[k])
            return float(self.position(self.table(('argsort', a.args[0], a.args[1]), env, f), a.args[2], env))
        if op == 'sortv':
            return self.position(sorted(self.values(a.args[0], a.args[1], env)), a.args[2], env)
        if op == 'sortsel':
            return self.position(self.table(('sortsel',) + a.args[:3], env, lambda: sorted(self.partvals((a.args[:3],), env))), a.args[3], env)
        if op == 'unique':
            return self.position(self.uniq(a.args[0], env), a.args[1], env)
        if op == 'unique_len':
            return float(len(self.uniq(a.args if not (len(a.args) == 1 and isinstance(a.args[0], tuple) and a.args[0] and isinstance(a.args[0][0], tuple) and len(a.args[0][0]) == 3
                                                     and isinstance(a.args[0][0][1], Lam)) else a.args[0], env)))
        if op == 'concat':
            return self.position(self.table(('concat', a.args[0]), env, lambda: self.partvals(a.args[0], env)), a.args[1], env)
        if op == 'selidx':
            def f():
                return [p for p in self.grid(a.args[1], env) if self.lamb(a.args[0], p, env)]
            return float(self.position(self.table(('sel', a.args[0], a.args[1]), env, f), a.args[3], env)[int(a.args[2])])
        if op == 'selpos' and len(a.args) == 2:
            k = self.ev(a.args[1], env)
            if k != k or not 0 <= k < 4000:
                raise Skip()
            return float(sum(self.lamb(a.args[0], (j,), env) for j in range(int(k))))
        if op == 'searchsorted' and a.args[2] in ('left', 'right'):
            v, q = self.values(a.args[0], a.args[1], env), self.ev(a.args[3], env)
            tol = 1e-9 * abs(q)
            if any(x > y for x, y in zip(v, v[1:])):
                raise Skip()
            return float(sum(1 for x in v if (x < q - tol if a.args[2] == 'left' else x <= q + tol)))
        if op == 'cumsum' and len(a.args) == 3:
            k = self.ev(a.args[2], env)
            return sum(self.values(a.args[0], a.args[1], env)[:int(k) + 1])
        return None

    def interp(self, a, env):
        n = self.idim(a.args[0], env)
        lx, ly, opts, w = a.args[1], a.args[2], a.args[3], self.ev(a.args[4], env)
        x = [self.lam(lx, (k,), env) for k in range(n)]
        if w != w or any(v != v for v in x) or n < 2:
            return float('nan')
        kind, mode = (opts + ('error',))[:2] if isinstance(opts, tuple) else ('linear', 'error')
        order = sorted(range(n), key=lambda k: x[k])
        y = lambda k: self.lam(ly, (k,), env)
        tol = 1e-9 * (abs(x[order[-1]]) + abs(x[order[0]]))
        for k in order:
            if abs(x[k] - w) <= tol:
                return y(k)
        if w < x[order[0]] or w > x[order[-1]]:
            if mode == 'fill0':
                return 0.0
            if mode in ('error', 'nan', 'fillnan'):
                return float('nan')
            if mode != 'extrapolate':
                h = _h(self.seed, 'oor', str(opts), w)
                return sum(y(k) * _u(_h(h, j)) for j, k in enumerate(order))
        j = 0
        while j < n - 2 and x[order[j + 1]] < w:
            j += 1
        a0, a1 = order[j], order[j + 1]
        if x[a1] == x[a0]:
            return y(a0)
        f = (w - x[a0]) / (x[a1] - x[a0])
        r = y(a0) * (1 - f) + y(a1) * f
        if kind != 'linear':
            # higher orders: continuous, exact at the samples, linear in the sampled values, otherwise arbitrary
            h = _h(self.seed, 'interpw', str(kind), j, tuple(x[k] for k in order))
            r += f * (1 - f) * sum(y(k) * (_u(_h(h, q)) - 0.3) for q, k in enumerate(order))
        return r

    def rootval(self, a, env):
        # args: closure of the searched variable, lo, hi
        lam, lo, hi = a.args[0], self.ev(a.args[1], env), self.ev(a.args[2], env)
        if not isinstance(lam, Lam):
            raise Skip()

        def f(x):
            return self.lam(lam, (x,), env)
        flo, fhi = f(lo), f(hi)
        if flo != flo or fhi != fhi or flo * fhi > 0:
            raise Skip()
        for _ in range(60):
            m = 0.5 * (lo + hi)
            fm = f(m)
            if fm == 0:
                return m
            if (fm > 0) == (flo > 0):
                lo = m
            else:
                hi = m
        return 0.5 * (lo + hi)


TOL = [1e-6, 1e-36]


class loosened(object):
    """differences up to the given relative and absolute sizes do not count"""

    def __init__(self, rtol, atol=0.0):
        self.t = [rtol, atol]

    def __enter__(self):
        self.o, TOL[:] = list(TOL), self.t

    def __exit__(self, *a):
        TOL[:] = self.o


def same(x, y):
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    if x in (float('inf'), float('-inf')) or y in (float('inf'), float('-inf')):
        return False
    return abs(x - y) <= max(TOL[0] * max(abs(x), abs(y)), TOL[1])


LAST = [0]
EFFORT = [1500, 150, 6.0]


def nearkey(a):
    return (a.op, a.args[0]) if a.args and isinstance(a.args[0], str) else None


def spread(*ts):
    """decades between the numbers that stand in one sum, and the numbers that quantities are compared with"""
    r = 3.0
    near = {}
    seen = set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if not isinstance(t, Node) or t.id in seen:
            continue
        seen.add(t.id)
        if isinstance(t, P) and len(t.terms) > 1:
            c = [abs(float(c)) for m, c in t.terms]
            r = max(r, math.log10(max(c) / min(c)))
        if isinstance(t, D):
            x = t.test.x
            if isinstance(x, P) and len(x.terms) == 2 and any(not m for m, c in x.terms):
                c0 = [c for m, c in x.terms if not m][0]
                m, c = [(m, c) for m, c in x.terms if m][0]
                if len(m) == 1 and nearkey(m[0][0]) is not None:
                    q = -float(c0) / float(c)
                    if q > 0 and (q > 50 or q < 0.02):
                        try:
                            near.setdefault(nearkey(m[0][0]), []).append(q ** (1 / float(m[0][1])))
                        except (OverflowError, ZeroDivisionError):
                            pass
            todo.append(x)
            todo += list(t.kids)
        elif isinstance(t, P):
            todo += [a for m, c in t.terms for a, e in m]
        elif isinstance(t, Atom):
            todo += [b for b in t.args if isinstance(b, (Node, Lam))]
        elif isinstance(t, Lam):
            todo.append(t.body)
    return min(r, 40.0), near


def refute(x, y, cond, vs, dims, seed=1):
    """None if no interpretation separates x and y under cond, else a description of one"""
    t0 = time.time()
    tries, want, secs = EFFORT
    acc = 0
    LAST[0] = 0
    both = is_bool(x) and is_bool(y)
    big = []
    for e in (x, y):
        for a in atoms(e, lambda a: a.op == 'nsteps'):
            ds = atoms(a, lambda b: b.op == 'dim')
            c = const(a.args[2]) if isinstance(a.args[2], Node) else None
            if len(ds) == 1 and c is not None and 5 < c < 1500:
                big.append((next(iter(ds)).args[0], int(c)))
    span, near = spread(x, y)
    lits = sorted(set().union(*[atoms(e, lambda a: a.op == 'str') for e in (x, y, cond) if isinstance(e, Node)]), key=lambda a: str(a.args))
    for k in range(tries):
        if acc >= want or time.time() - t0 > secs:
            break
        v = Valuation(_h(seed, k))
        v.span = span
        v.near = near
        v.lits = lits
        for nm, st in big:
            # axes walked in steps: let some interpretations need several steps
            if _u(_h(v.seed, 'big', nm)) < 0.6:
                v.dims[nm] = st * (1 + _h(v.seed, 'blocks', nm) % 2) + (0, 1, st // 3)[_h(v.seed, 'rest', nm) % 3]
        try:
            env = {}
            for a, d in zip(vs, dims):
                n = v.idim(d, env) if isinstance(d, Node) else int(d)
                if n == 0:
                    raise Skip()
                env[a.id] = _h(v.seed, 'ix', str(a.args)) % n
            v.opq = False
            v.focus = set(env.values())
            if not v.boolean(cond, env):
                continue
            if v.opq:
                continue
            acc += not v.dec
            if both:
                r, s = v.boolean(x, env), v.boolean(y, env)
            else:
                r, s = v.ev(x, env), v.ev(y, env)
            if v.opq:
                continue
            LAST[0] += 1
            if (r != s) if both else not same(r, s):
                return 'e.g. %s instead of %s' % (('%.6g' % r, '%.6g' % s) if not both else (r, s))
        except Skip:
            continue
        except (OverflowError, ValueError):
            continue
    return None
