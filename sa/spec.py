"""Specification terms: what the public calculations have to return, written from the properties.

Everything is expressed over the inputs of the call and over public attributes of the object (tables, band map,
template properties, cosmology), never over the code of the method under analysis.
"""
from .contexts import *
from .compare import *

SENT = num(-9999)


def symname(name, k):
    return mk('in', name, '', k)


class Spec(object):
    def __init__(self, w, batch, abm=None, abi=None):
        self.w, self.it, self.b = w, w.it, batch
        self._t = {}
        self.nin = w.nb
        out = w.attr('responses_out') if w.clsname != 'Fitter' else None
        self.nout = len_of(self.it, out) if out is not None else w.nb
        if self.nout is None:
            self.nout = NO if w.out else w.nb
        self.dist = False
        self.zin = lambda g: inp('z', FIN, *g)
        self.cin = lambda g, t: inp('coeffs', 'PZ', *(list(g) + [t]))
        self.min = lambda g, b: inp('maggies', FIN, *(list(g) + [b]))
        self.iin = lambda g, b: inp('ivar', 'PZ', *(list(g) + [b]))
        self.din = lambda g: inp('dist', 'P', *g)
        self.bs = inp('bs', FIN)

    # ---- library/object access without leaving traces
    def quiet(self, th):
        it = self.it
        s = it.pc, it.handlers, len(it.events), len(it.top_raises), len(it.unmodelled)
        it.quiet += 1
        it.handlers = []
        it.pc = TRUE
        try:
            return self.w.run(th)
        finally:
            it.quiet -= 1
            it.pc, it.handlers = s[0], s[1]
            del it.events[s[2]:], it.top_raises[s[3]:], it.unmodelled[s[4]:]

    def table(self, attr, shift, band, templ):
        """model flux of one template in one band at a redshift"""
        # indices of the galaxy inside the shift must not be mistaken for the axes of the table
        ren = {}

        def fresh(a):
            if a.op == 'ix':
                if a not in ren:
                    ren[a] = fresh_ix()
                return atomP(ren[a])
            return None
        orig = shift
        shift = map_atoms(shift, fresh)
        key = (attr, orig.id)
        if key in self._t:
            a, ren = self._t[key]
            return subst(a.at1(band, templ), {v: atomP(k) for k, v in ren.items()})
        a = None
        if a is None:
            v = self.w.attr(attr)
            if v is None:
                raise AnchorError('attribute %s of %s does not exist' % (attr, self.w.clsname))
            a = self.quiet(lambda: self.it.arr(self.it.call(v, [scalar(shift, 'f4')], {}, NODE)))
            if not isinstance(a, Arr) or a.ndim != 2:
                raise AnchorError('%s(redshift) of %s is not a [band, template] array' % (attr, self.w.clsname))
            self._t[key] = a, ren
        return subst(a.at1(band, templ), {v: atomP(k) for k, v in ren.items()})

    def sum_t(self, f):
        nt = self.w.ntempl
        if nt is ONE:
            return f(ZERO)
        v = fresh_ix()
        return mk('sumover', nt, mklam([v], f(atomP(v))))

    def flux_in(self, g, b, z=None, bs=None):
        z = self.zin(g) if z is None else z
        sh = z if bs is None else sub(mul(add(ONE, z), add(ONE, bs)), ONE)
        r = self.sum_t(lambda t: mul(self.cin(g, t), self.table('Amatrix', sh, b, t)))
        return r if bs is None else div(r, add(ONE, bs))

    def flux_out(self, g, b, z=None, bs=None):
        z = ZERO if z is None else z
        sh = z if bs is None else sub(mul(add(ONE, z), add(ONE, bs)), ONE)
        attr = 'AmatrixOut' if self.w.clsname != 'Fitter' else 'Amatrix'
        r = self.sum_t(lambda t: mul(self.cin(g, t), self.table(attr, sh, b, t)))
        return r if bs is None else div(r, add(ONE, bs))

    def imap(self, q):
        """position among the input bands of the band mapped to output band q"""
        w = self.w
        names = w.attr('responses')
        m = symname('RESPMAP', q) if w.out else self.name_at(names, q)
        if isinstance(m, str):
            return num([x for x in self.it.heap[names.cid].items].index(m))
        return self.quiet(lambda: self.it.arr(self.it.call(self.it.getattr(names, 'index', NODE), [SymStr(m)], {}, NODE))).body

    def name_at(self, names, q):
        x = self.quiet(lambda: self.it.subscript(names, scalar(q, 'i', True), NODE))
        return x.t if isinstance(x, SymStr) else x

    def csum(self, g):
        return self.sum_t(lambda t: self.cin(g, t))

    def templ(self, name):
        def go(v):
            if isinstance(v, Phi):
                x, y = go(v.a), go(v.b)
                return lambda t: ite(v.c, x(t), y(t))
            a = self.it.arr(v)
            return lambda t: a.at1(t)
        key = 'templ.' + name
        if key not in self._t:
            o = self.w.attr('templates')
            v = self.w.run(lambda: self.it.getattr(o, name, NODE))
            if v is None:
                raise AnchorError('templates.%s does not exist' % name)
            self._t[key] = go(v)
        return self._t[key]

    def dm(self, g):
        if self.dist:
            return mul(num(5), log10E(mul(self.din(g), num(100000))))
        c = self.w.attr('cosmo')
        if not (isinstance(c, Lib) and c.kind == 'cosmo'):
            raise AnchorError('the cosmo attribute is not the cosmology given')
        return mul(num(5), log10E(mul(mk('DL', c.d['name'], self.zin(g)), num(100000))))

    # ---- results, as functions of galaxy indices and band
    def K(self, g, q):
        k = mul(num(Fr(-5, 2)), log10E(div(self.flux_in(g, self.imap(q)), self.flux_out(g, q, bs=self.bs))))
        return ite(gt0(self.csum(g)), k, ZERO)

    def absmag(self, g, q):
        b = self.imap(q)
        m, iv = self.min(g, b), self.iin(g, b)
        ok = And(gt0(m), gt0(iv))
        v = sub(sub(mul(num(Fr(-5, 2)), log10E(m)), self.dm(g)), self.K(g, q))
        return ite(ok, v, SENT)

    def limit(self, g, q):
        b = self.imap(q)
        iv = self.iin(g, b)
        v = sub(sub(mul(num(Fr(-5, 2)), log10E(powE(iv, Fr(-1, 2)))), self.dm(g)), self.K(g, q))
        return ite(And(gt0(iv), gt0(self.csum(g))), v, SENT)

    def rmag(self, g, q):
        o = self.flux_out(g, q, bs=self.bs)
        return ite(gt0(o), sub(mul(num(Fr(-5, 2)), log10E(o)), self.dm(g)), SENT)

    def wsum(self, g, *names):
        fs = [self.templ(n) for n in names]

        def body(t):
            r = self.cin(g, t)
            for f in fs:
                r = mul(r, f(t))
            return r
        return self.sum_t(body)

    def dfac(self, g):
        return exp10E(mul(num(Fr(2, 5)), self.dm(g)))

    def derived(self, key, g, q=None):
        if key == 'mremain':
            return mul(self.wsum(g, 'mremain'), self.dfac(g))
        if key == 'intsfh':
            return mul(self.wsum(g, 'intsfh'), self.dfac(g))
        mass = self.wsum(g, 'mremain')
        if key == 'metallicity':
            return ite(gt0(mass), div(self.wsum(g, 'mremain', 'mets'), mass), ZERO)
        if key in ('b50', 'b300', 'b1000'):
            return ite(gt0(mass), div(self.wsum(g, 'm' + key[1:]), self.wsum(g, 'intsfh')), ZERO)
        if key == 'mtol':
            o = self.flux_out(g, q, bs=self.bs)
            nm = self.outname(q)
            sol = ite(flag(raw_atom('resp_none', 'solar_magnitude', nm)), ZERO, mk('resp', 'solar_magnitude', nm))
            return ite(gt0(o), div(mass, mul(o, exp10E(mul(num(Fr(2, 5)), sol)))), ZERO)
        raise KeyError(key)

    def outname(self, q):
        v = self.w.attr('responses_out')
        x = self.quiet(lambda: self.it.subscript(v, scalar(q, 'i', True), NODE))
        if isinstance(x, SymStr):
            return x.t
        if isinstance(x, str):
            return atomP(raw_atom('str', x))
        a = self.it.arr(x)
        return a.body

    # ---- arrays
    def arr1(self, f, n=None):
        """per-galaxy (and per-band) result"""
        k = 0 if self.b.n is None else 1
        dims = self.b.dims(*([n] if n is not None else []))
        return from_fn(dims, (lambda *ix: f(list(ix[:k]), ix[k])) if n is not None else (lambda *ix: f(list(ix[:k]))))

    # ---- redshift range
    def outside(self, z):
        """the tables cannot be evaluated at redshift z"""
        lo, hi = self.grid()
        return Or(cmp('<', z, lo), cmp('>', z, hi)) if False else Or(gt0(sub(lo, z)), gt0(sub(z, hi)))

    def grid(self):
        if 'grid' not in self._t:
            self._t['grid'] = (inp('zlo', FIN), inp('zhi', FIN))
        return self._t['grid']

    def anyg(self, f):
        """some galaxy satisfies f"""
        if self.b.n is None:
            return f([])
        v = fresh_ix()
        return exists(self.b.n, mklam([v], f([atomP(v)])))


def set_mc(sp, k):
    """the inputs of realization k"""
    sp.cin = lambda g, t: inp('coeffs_mc', 'PZ', *(list(g) + [t, k]))
    sp.min = lambda g, b: inp('maggies_mc', FIN, *(list(g) + [b, k]))


def batch_of(label):
    for b in BATCHES:
        if '[' + b.kind in label:
            return b
    return None


def assume_off(e, ops=('nnls_fails',)):
    """e with the given flags assumed false"""
    return map_atoms(e, lambda a: FALSE if a.op in ops else None)


def dict_items(it, v):
    """[(cond, {key: value})] of a dictionary result"""
    out = []
    for c, x in cases_of(it, v):
        if isinstance(x, Ref) and isinstance(it.heap[x.cid], DictCell):
            d = it.heap[x.cid].items
            out.append((c, dict(d) if isinstance(d, dict) else dict((k, vv) for k, vv in d)))
        else:
            out.append((c, None))
    return out
