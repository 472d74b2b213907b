"""Fits, Monte Carlo, AB correction, shapes, batches and ranges: C02, C03, C05, C06, C07, C20, C31."""
from .common import *
from .values import label, DKEYS, values_of, own_parts, combos, KC, _spec, ab_marker, AB_MARKED
from .. import contexts
from ..handlers import table_lam
from ..suite import gal, fresh, Case, method_case

NOFAIL = lambda t: assume_off(t)
# the solver gives up at its default number of iterations, and converges when given more
RETRY = lambda t: map_atoms(t, lambda a: (TRUE if a.args[-1] == 'default' else FALSE) if a.op == 'nnls_fails' else None)


def off_val(it, v, NOFAIL=NOFAIL):
    """a value in which the solver converges (or behaves as NOFAIL says)"""
    if isinstance(v, Phi):
        c = NOFAIL(v.c)
        if c is TRUE:
            return off_val(it, v.a, NOFAIL)
        if c is FALSE:
            return off_val(it, v.b, NOFAIL)
        return Phi(c, off_val(it, v.a, NOFAIL), off_val(it, v.b, NOFAIL))
    if isinstance(v, Tup):
        return Tup([off_val(it, x, NOFAIL) for x in v.items])
    try:
        a = it.arr(v)
    except (Unmodelled, ShapeErr, Dead, NeedPeel):
        return v
    if isinstance(a, Arr):
        return Arr(a.axes, NOFAIL(a.body), a.dt)
    return v


def nnls_arr(sp, fb, nb):
    """coefficients of the problem with fluxes fb(g, b)"""
    def f(g, t):
        sq = lambda b: powE(sp.iin(g, b), Fr(1, 2))
        la = table_lam(nb, lambda r, c: b2n(mul(sq(r), sp.table('Amatrix', sp.zin(g), r, c))), 2)
        lb = table_lam(nb, lambda r: b2n(mul(fb(g, r), sq(r))), 1)
        return atomP(raw_atom('nnls', la, lb, (nb, sp.w.ntempl), t))
    return f


def fit_parts(out, rule, c, where, mode=NOFAIL):
    n = 3 if 'mc' in c.name.split('[')[-1] else 1
    vs = []
    for j in range(n):
        v = nth(out, rule, c.name, where, c.it, c.result, n, j, c.pc)
        if v is None:
            return None
        vs.append(off_val(c.it, v, mode))
    return vs


def good_pc(c):
    return NOFAIL(c.pc)


# ---------------------------------------------------------------- C05
def c05_task(lab):
    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C05.value', c, where):
            return
        sp = _spec(c)
        vs = fit_parts(out, 'C05.results', c, where)
        if vs is None:
            return
        x = nnls_arr(sp, sp.min, sp.nin)
        spec = sp.arr1(lambda g, t: ite(sp.outside(sp.zin(g)), ZERO, x(g, t)), sp.w.ntempl)
        check(out, 'C05.weighted-problem', lab, c.it, vs[0], spec, good_pc(c), where)
        rs = fit_parts(out, 'C05.results', c, where, RETRY)
        if rs is not None and RETRY(c.pc) is not FALSE:
            check(out, 'C05.retry-solves-the-same-problem', lab, c.it, rs[0], spec, RETRY(c.pc), where)
        # zero inverse variance: neither the flux nor the model of that band matters
        a = merged(c.it, vs[0])
        if a is not None:
            zero = sub_in(a.body, lambda n, fl, ix: ZERO if n == 'ivar' else None)
            left = atoms(zero, lambda t: t.op == 'in' and t.args[0] in ('maggies', 'A'))
            out.decide('C05.unmeasured-bands-have-no-influence', lab, None if not left else 'with inverse variance zero the coefficients still depend on %s' % brief(atomP(left[0]), 60),
                       where, a.body.opq)
            other = [t for t in atoms(a.body, lambda t: t.op in ('in', 'rng')) if t.op == 'rng' or t.args[0] not in ('maggies', 'ivar', 'z', 'A', 'zlo', 'zhi')]
            out.decide('C05.nothing-else-enters', lab, None if not other else 'the coefficients depend on %s' % brief(atomP(other[0]), 60), where, a.body.opq)
    return f


def c05(tier):
    t = []
    for cls in ('Fitter', 'Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
        for b in ('scalar', 'one', 'many'):
            for tag in ('', 'mc'):
                l = label(cls, None, 'fit_coeffs', b, tag)
                t.append((l, c05_task(l)))
    for cls in ('Fitter', 'Kcorrect'):
        for b in ('scalar', 'many'):
            for var in ('one input band', 'one template'):
                for tag in ('', 'mc'):
                    l = label(cls, None, 'fit_coeffs', b, tag) + ' {%s}' % var
                    t.append((l, c05_task(l)))
    return t


# ---------------------------------------------------------------- C06
def noise_rule(body, base, iv, need, cond):
    """None if body - base is independent Gaussian noise of variance 1/iv, distinct for the index variables need"""
    d = restrict(sub(b2n(body), b2n(base)), cond)
    rs = atoms(d, lambda t: t.op == 'rng')
    if not rs:
        return ('no noise is added to measured bands', True)
    if d.opq:
        return ('the noise has no closed form: %s' % brief(d, 120), False)
    if not isinstance(d, P):
        # a plain draw over the error, of either sign, in some realizations and not in others?
        if len(rs) == 1:
            w = mul(atomP(next(iter(rs))), powE(iv, Fr(-1, 2)))
            if all(refute(d, x, cond, list(need), [NI] * len(need)) for x in (w, neg(w))):
                return ('the noise is %s instead of a draw times the error' % brief(d, 120), True)
        return ('the noise has no closed form: %s' % brief(d, 120), False)
    var = ZERO
    for r in rs:
        c1 = subst_atom(d, r, ONE)
        c0 = subst_atom(d, r, ZERO)
        k = sub(c1, c0)
        # linear in the draw
        c2 = subst_atom(d, r, num(2))
        if not eq(sub(c2, c1), k):
            return ('the noise is not proportional to a Gaussian draw', True)
        var = add(var, mul(k, k))
    rest = d
    for r in rs:
        rest = subst_atom(rest, r, ZERO)
    if not eq(rest, ZERO):
        return ('the noise does not have zero mean: offset %s' % brief(rest, 80), True)
    want = powE(iv, Fr(-1))
    if not eq(restrict(var, cond), restrict(want, cond)):
        sep = refute(restrict(var, cond), restrict(want, cond), cond, list(need), [NI] * len(need))
        return ('the variance of the noise is %s instead of 1/ivar' % brief(var, 100), sep is not None)
    # independence: another object, band or realization uses another draw
    for v, what in need.items():
        if not any(v.id in atomP(r).fv for r in rs):
            return ('the same draw is used for every %s' % what, True)
        okv = False
        for r in rs:
            for a in r.args:
                if isinstance(a, P):
                    at = single_atom(a)
                    if at is v or (at is not None and at.op == 'selpos' and v.id in a.fv):
                        okv = True
                    elif v.id in a.fv and linear_in(a, v):
                        okv = True
        if not okv:
            return ('cannot tell whether every %s has its own draw' % what, False)
    return None


def linear_in(a, v):
    one = subst(a, {v: add(atomP(v), ONE)})
    k = sub(one, a)
    return v.id not in k.fv and not eq(k, ZERO)


def c06_task(lab):
    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C06.value', c, where):
            return
        sp = _spec(c)
        vs = fit_parts(out, 'C06.results', c, where)
        if vs is None:
            return
        mm = merged(c.it, vs[2])
        k = 0 if sp.b.n is None else 1
        pc = good_pc(c)
        if mm is None:
            out.und('C06.noise', lab, 'fluxes of the realizations are not one array')
            return
        dims = sp.b.dims(sp.nin, MC)
        sh = cmp_arr(mm, Arr(tuple(Ax(d) for d in dims), mm.body, mm.dt), pc)
        if not sh:
            out.decide('C06.noise', lab, 'realization fluxes: ' + sh.msg, where, not sh.definite)
            return
        gi = [IX('@0')][:k]
        bi, ki = IX('@%d' % k), IX('@%d' % (k + 1))
        if k and const(sp.b.n) is not None:
            mm0 = subst(mm.body, {gi[0]: ZERO})
            g = [ZERO]
        else:
            mm0 = mm.body
            g = [atomP(x) for x in gi]
        need = {bi: 'band', ki: 'realization'}
        if k and const(sp.b.n) is None:
            need[gi[0]] = 'object'
        m, iv = sp.min(g, atomP(bi)), sp.iin(g, atomP(bi))
        inside = And(pc, Not(sp.outside(sp.zin(g))))
        bands = [bi] if const(sp.nin) is None else [num(j) for j in range(int(const(sp.nin)))]
        for b in bands:
            if isinstance(b, P):
                nd = {v: w for v, w in need.items() if v is not bi}
                sb = lambda t: subst(t, {bi: b})
            else:
                nd, sb = need, (lambda t: t)
            r = noise_rule(sb(mm0), sb(m), sb(iv), nd, And(sb(inside), gt0(sb(iv))))
            inst = lab + ('' if not isinstance(b, P) else ' band %s' % brief(b))
            out.decide('C06.noise', inst, None if r is None else r[0], where, r is not None and not r[1])
            un = And(sb(inside), Not(gt0(sb(iv))))
            check_terms(out, 'C06.unmeasured-bands-unchanged', inst, sb(mm0), sb(m), un, where, [v for v in need if v is bi and not isinstance(b, P)], [NI])
        if len(bands) > 1:
            # constant bands: the draws of two bands must differ
            rs = [set(t.id for t in atoms(restrict(subst(mm0, {bi: b}), And(subst(inside, {bi: b}), gt0(subst(iv, {bi: b})))), lambda t: t.op == 'rng')) for b in bands]
            clash = any(rs[i] & rs[j] for i in range(len(rs)) for j in range(i))
            out.decide('C06.bands-independent', lab, 'two bands use the same draw' if clash else None, where, mm.body.opq)
        # coefficients of the realizations: the problem with exactly the fluxes returned
        x = nnls_arr_mc(sp, lambda g_, b_, k_: mm.at1(*(list(g_) + [b_, k_])), sp.nin)
        spec = from_fn(sp.b.dims(NT, MC), lambda *ix: ite(sp.outside(sp.zin(list(ix[:k]))), ZERO, x(list(ix[:k]), ix[k], ix[k + 1])))
        check(out, 'C06.fit-of-the-fluxes-returned', lab, c.it, vs[1], spec, pc, where)
        rs = fit_parts(out, 'C06.results', c, where, RETRY)
        if rs is not None and RETRY(c.pc) is not FALSE:
            check(out, 'C06.retry-fits-the-fluxes-returned', lab, c.it, rs[1], spec, RETRY(c.pc), where)
        # nominal coefficients are those without realizations
        tag = 'ab' if ',ab' in lab else ''
        c0 = out.case(lab.replace('mc]', ']').replace(',]', ']'))
        if c0 is not None and c0.result is not None:
            a = merged(c0.it, off_val(c0.it, c0.result))
            if a is not None:
                check(out, 'C06.nominal-independent-of-realizations', lab, c.it, vs[0], a, pc, where)
    return f


def nnls_arr_mc(sp, fb, nb):
    def f(g, t, k):
        if g and const(sp.b.n) is not None:
            g = [ZERO]
        sq = lambda b: powE(sp.iin(g, b), Fr(1, 2))
        la = table_lam(nb, lambda r, c: b2n(mul(sq(r), sp.table('Amatrix', sp.zin(g), r, c))), 2)
        lb = table_lam(nb, lambda r: b2n(restrict(mul(fb(g, r, k), sq(r)), Not(sp.outside(sp.zin(g))))), 1)
        return atomP(raw_atom('nnls', la, lb, (nb, NT), t))
    return f


def c06(tier):
    t = []
    for cls in ('Fitter', 'Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
        for b in ('scalar', 'one', 'many'):
            l = label(cls, None, 'fit_coeffs', b, 'mc')
            t.append((l, c06_task(l)))
    return t


# ---------------------------------------------------------------- C31
def c31_task(cls, o, meth, b, tag1, tag0):
    lab = label(cls, o, meth, b, tag1)

    def f(out):
        c1 = out.case(lab)
        if c1 is None:
            return
        nom = meth[:-3]
        c0 = out.case(label(cls, o, nom, b, tag0)) or out.case(label('Kcorrect', o, nom, b, tag0))
        where = out.src(c1.entry)
        if lost(out, 'C31.value', c1, where) or c0 is None or lost(out, 'C31.value', c0, where):
            return
        v1, v0 = values_of(out, 'C31.results', c1, where), values_of(out, 'C31.results', c0, where)
        if v1 is None or v0 is None:
            return
        d0 = {n: a for n, a, v in v0}
        for name, a, v in v1:
            n = d0.get(name)
            if n is None:
                out.und('C31.realization', '%s %s' % (lab, name), 'nominal value is not an array')
                continue
            # bands and objects in front, realization last
            kk = fresh_ix()

            def ren(nm, fl, ix):
                if nm in ('maggies', 'coeffs'):
                    return inp(nm + '_mc', fl, *(list(ix) + [atomP(kk)]))
                return None
            body = sub_in(n.body, ren)
            spec = Arr(n.axes + (Ax(MC),), subst(body, {kk: atomP(IX('@%d' % n.ndim))}), n.dt)
            check(out, 'C31.realization', '%s %s' % (lab, name), c1.it, v, spec, c1.pc, where)
    return f


def c31(tier):
    t = []
    for cls, o, b in combos(tier):
        t.append((label(cls, o, 'absmag_mc', b, ''), c31_task(cls, o, 'absmag_mc', b, '', '')))
        t.append((label(cls, o, 'absmag_mc', b, 'dist'), c31_task(cls, o, 'absmag_mc', b, 'dist,all', 'dist,all')))
        t.append((label(cls, o, 'derived_mc', b, ''), c31_task(cls, o, 'derived_mc', b, '', '')))
        t.append((label(cls, o, 'derived_mc', b, 'dist'), c31_task(cls, o, 'derived_mc', b, 'dist', 'dist')))
    return t


# ---------------------------------------------------------------- C07
def asinh_marker(it, f, env, node):
    def conv(v, name, flags):
        a = it.arr(v)
        return it.mkarr(Arr(a.axes, lift(lambda t: inp(name, flags, t), b2n(a.body)), a.dt))
    vs = [v for k, v in env.items()]
    m, e = vs[0], vs[1]
    if e is None:
        return conv(m, 'asinh.flux', FIN)
    return Tup([conv(m, 'asinh.flux', FIN), conv(e, 'asinh.ivar', 'PZ')])


AB_ENTRIES = [
    ('fit_coeffs', ('redshift', 'maggies', 'ivar'), {}),
    ('fit_coeffs', ('redshift', 'maggies', 'ivar'), {'mc': True}),
    ('reconstruct', ('redshift', 'coeffs', 'band_shift'), {}),
    ('reconstruct_out', ('redshift', 'coeffs', 'band_shift'), {}),
    ('kcorrect', ('redshift', 'coeffs', 'band_shift'), {}),
    ('absmag', ('maggies', 'ivar', 'redshift', 'coeffs', 'band_shift'), {}),
    ('absmag', ('maggies', 'ivar', 'redshift', 'coeffs', 'band_shift', 'distance'), {'reconstruct': 1, 'limit': 1, 'kcorrect': 1}),
    ('absmag_mc', ('maggies_mc', 'ivar', 'redshift', 'coeffs_mc', 'band_shift', 'distance'), {'reconstruct': 1, 'kcorrect': 1}),
    ('derived', ('redshift', 'coeffs', 'band_shift'), {}),
    ('derived_mc', ('redshift', 'coeffs_mc', 'band_shift'), {}),
    ('fit_coeffs_asinh', None, {}),
]


def c07_result(out, cls, o, meth, names, extra, b, abc, lab):
    ov = dict(AB_MARKED, sdss_asinh_to_maggies=asinh_marker)
    w = fresh(out.prog, cls, out=o, abcorrect=abc, tables='abstract', overrides=ov)
    it = w.it
    bb = [x for x in BATCHES if x.kind == b][0]
    if names is None:
        kw = {'redshift': bb.arr(it, 'z'), 'mag': bb.arr(it, 'mag', num(5)), 'mag_err': bb.arr(it, 'magerr', num(5), flags='P')}
    else:
        kw = gal(w, bb, *names)
    for k in extra:
        kw[k] = scalar(MC, 'i', True) if k == 'mc' else boolv(True)
    ev0, nr0 = len(it.events), len(it.top_raises)
    it.pc = TRUE
    r = w.call(meth, **kw)
    c = Case(lab, it, '%s.%s' % (cls, meth), r, w, kw, ev0, nr0)
    out.ncases += 1
    out.note(it)
    return c


def to_marked(t):
    def f(n, fl, ix):
        if n == 'maggies':
            return inp('AB.flux', FIN, inp(n, fl, *ix), ix[-1])
        if n == 'maggies_mc':
            return inp('AB.flux', FIN, inp(n, fl, *ix), ix[-2])
        if n == 'ivar':
            return inp('AB.ivar', 'PZ', inp(n, fl, *ix), ix[-1])
        if n == 'asinh.flux':
            b = last_ix(ix[0])
            return None if b is None else inp('AB.flux', FIN, inp(n, fl, *ix), b)
        if n == 'asinh.ivar':
            b = last_ix(ix[0])
            return None if b is None else inp('AB.ivar', 'PZ', inp(n, fl, *ix), b)
        return None
    return sub_once(t, f)


def last_ix(t):
    """band index of the magnitude inside a converted value"""
    a = [x for x in atoms(t, lambda x: x.op == 'in' and x.args[0] in ('mag', 'magerr'))]
    return a[0].args[-1] if a else None


def sub_once(t, f):
    """replace input atoms without entering the replacement"""
    return sub_in(t, f)


def c07_task(cls, o, meth, names, extra, b):
    lab = '%s%s.%s[%s%s]' % (cls, '+out' if o else '', meth, b, ''.join(',' + k for k in sorted(extra)))

    def f(out):
        where = out.src('%s.%s' % (cls, meth))
        c0 = c07_result(out, cls, o, meth, names, extra, b, False, lab)
        c1 = c07_result(out, cls, o, meth, names, extra, b, True, lab)
        if lost(out, 'C07.value', c0, where) or lost(out, 'C07.value', c1, where):
            return
        d0, d1 = whole(c0.it, off_val(c0.it, c0.result), NOFAIL(c0.pc)), whole(c1.it, off_val(c1.it, c1.result), NOFAIL(c1.pc))
        if set(d0) != set(d1):
            out.decide('C07.results', lab, 'different results with and without correction: %s' % sorted(set(d0) ^ set(d1)), where,
                       c1.pc.opq or vague(c0.it, c0.result, c0.pc) or vague(c1.it, c1.result, c1.pc))
            return
        for p in sorted(d0):
            inst = lab + (' ' + p if p else '')
            a = merged(c0.it, off_val(c0.it, d0[p]))
            if a is None:
                out.und('C07.once', inst, 'not one array')
                continue
            left = atoms(a.body, lambda t: t.op == 'in' and str(t.args[0]).startswith('AB.'))
            out.decide('C07.not-when-off', inst, 'converted although the correction is off' if left else None, where, a.body.opq)
            if left:
                continue
            spec = arr_map(a, to_marked)
            v1 = off_val(c1.it, d1[p])
            a1 = merged(c1.it, v1)
            # draws of the two runs are the same draws
            check(out, 'C07.exactly-once-when-on', inst, c1.it, v1, spec, NOFAIL(c1.pc), where)
    return f


def c07_switch(cls):
    """the switch of the constructor is the switch used"""
    def f(out):
        where = out.src(cls + '.__init__')
        for given, want in ((True, TRUE), (False, FALSE), ('default', {'Fitter': FALSE, 'Kcorrect': FALSE, 'KcorrectSDSS': TRUE, 'KcorrectGST': FALSE}[cls])):
            w = fresh(out.prog, cls, abcorrect=given, tables='abstract')
            out.ncases += 1
            out.note(w.it)
            v = w.attr('abcorrect')
            t = w.it.truth(v) if v is not None else None
            out.decide('C07.switch-stored', '%s(abcorrect=%s)' % (cls, given), None if t is want else 'the attribute abcorrect is %s' % (brief(t) if t is not None else 'missing'), where,
                       t is not None and t.opq)
    return f


def c07(tier):
    t = []
    for cls in ('Kcorrect', 'Fitter', 'KcorrectSDSS', 'KcorrectGST'):
        t.append((cls + ' switch', c07_switch(cls)))
        for o in (None, True) if cls == 'Kcorrect' else (None,):
            for meth, names, extra in AB_ENTRIES:
                if cls == 'Fitter' and meth not in ('fit_coeffs', 'reconstruct'):
                    continue
                if (meth == 'fit_coeffs_asinh') != (cls == 'KcorrectSDSS') and meth == 'fit_coeffs_asinh':
                    continue
                if cls in ('KcorrectSDSS', 'KcorrectGST') and meth != 'fit_coeffs_asinh':
                    from ..suite import inherited
                    t.append(('%s %s ifown' % (cls, meth), c07_ifown(cls, o, meth, names, extra)))
                    continue
                for b in ('scalar', 'one', 'many'):
                    t.append(('%s %s %s %s %s' % (cls, o, meth, b, ','.join(extra)), c07_task(cls, o, meth, names, extra, b)))
    return t


def c07_ifown(cls, o, meth, names, extra):
    def f(out):
        from ..suite import inherited
        if inherited(out.prog, cls, meth):
            return
        for b in ('scalar', 'many'):
            c07_task(cls, o, meth, names, extra, b)(out)
    return f


# ---------------------------------------------------------------- C20
def false_under(out, rule, inst, x, cond, where, msg):
    """the condition x never holds together with cond"""
    r = cmp_body(And(x, cond), FALSE, [], [])
    out.decide(rule, inst, None if r else msg + ': ' + r.msg, where, not r.definite)
    return bool(r)


def out_range(sp, meth):
    """some object is outside the tables used"""
    zs = sp.anyg(lambda g: sp.outside(sp.zin(g)))
    bs = sp.bs
    both = sp.anyg(lambda g: sp.outside(sub(mul(add(ONE, sp.zin(g)), add(ONE, bs)), ONE)))
    if meth in ('reconstruct', 'reconstruct_out'):
        return both
    if meth in ('kcorrect', 'absmag', 'absmag_mc'):
        return Or(zs, sp.outside(bs))
    return sp.outside(bs)          # derived quantities use only the output band at redshift zero


def c20_fit(out, c, lab):
    where = out.src(c.entry)
    sp = _spec(c)
    k = 0 if sp.b.n is None else 1
    pc = good_pc(c)
    vs = fit_parts(out, 'C20.results', c, where)
    if vs is None:
        return
    g = [] if not k else ([ZERO] if const(sp.b.n) is not None else [atomP(IX('@0'))])
    cond = And(pc, sp.outside(sp.zin(g)))
    names = ('coefficients', 'coefficients of realizations', 'fluxes of realizations')
    specs = [from_fn(sp.b.dims(NT), lambda *ix: ZERO),
             from_fn(sp.b.dims(NT, MC), lambda *ix: ZERO),
             from_fn(sp.b.dims(sp.nin, MC), lambda *ix: sp.min(list(ix[:k]), ix[k]))]
    for j, v in enumerate(vs):
        a = merged(c.it, v)
        inst = '%s %s' % (lab, names[j])
        if a is None:
            # shapes may differ between the cases
            check(out, 'C20.outside-range-fallback', inst, c.it, v, specs[j], cond, where)
            continue
        if k and const(sp.b.n) is not None:
            a = Arr(a.axes, subst(a.body, {IX('@0'): ZERO}), a.dt)
            s = Arr(specs[j].axes, subst(specs[j].body, {IX('@0'): ZERO}), specs[j].dt)
        else:
            s = specs[j]
        r = cmp_arr(a, s, cond)
        out.decide('C20.outside-range-fallback', inst, r.msg, where, not r.definite)
    # the fit of a batch never fails because of an object outside the range
    for r in c.raises:
        rp = NOFAIL(r['pc'])
        if rp is FALSE:
            continue
        out.decide('C20.no-exception-from-fits', '%s: %s' % (lab, r['exc'].name), 'raises %s at %s where %s' % (r['exc'].name, r['where'], brief(rp, 160)), r['where'], rp.opq)
        return
    out.ok('C20.no-exception-from-fits', lab, where)


def c20_rec(out, c, lab, meth):
    where = out.src(c.entry)
    sp = _spec(c)
    bad = out_range(sp, meth)
    if c.result is None:
        out.bad('C20.in-range-returns', lab, 'never returns', where)
        return
    false_under(out, 'C20.outside-range-raises', lab, c.pc, bad, where, 'returns a result although a redshift is outside the range')
    n = 0
    for r in c.raises:
        p = And(r['pc'], bad)
        if p is FALSE:
            continue
        n += 1
        if r['exc'].name != 'ValueError':
            out.decide('C20.raises-value-error', '%s: %s' % (lab, r['exc'].name), 'raises %s instead of ValueError' % r['exc'].name, r['where'], p.opq)
            return
    out.ok('C20.raises-value-error', '%s: %d raises' % (lab, n), where)


def c20_task(lab, meth):
    def f(out):
        c = out.case(lab)
        if c is None:
            return
        if meth.startswith('fit'):
            if lost(out, 'C20.value', c, out.src(c.entry)):
                return
            c20_fit(out, c, lab)
        else:
            c20_rec(out, c, lab, meth)
    return f


def c20_reload(cls, o, meth, names, b, extra=()):
    lab = '%s%s reloaded: %s[%s%s]' % (cls, '+out' if o else '', meth, b, ''.join(',' + x for x in extra))

    def f(out):
        c = reloaded(out, cls, o, meth, names, b, lab, extra)
        if c is None:
            out.bad('C20.reloaded', lab, 'the object cannot be reloaded', out.src(cls + '.fromfits'))
            return
        if meth.startswith('fit'):
            if lost(out, 'C20.value', c, out.src(c.entry)):
                return
            c20_fit(out, c, lab)
        else:
            c20_rec(out, c, lab, meth)
    return f


def reloaded(out, cls, o, meth, names, b, lab, extra=()):
    """a calculation with an object that was saved and loaded again"""
    w = fresh(out.prog, cls, out=o, abcorrect=False, tables='abstract')
    it = w.it
    w.call('tofits', filename=suite.OUTNAME)
    it.pc = TRUE
    if cls == 'Kcorrect':
        r = w.run(lambda: it.instantiate(w.cls, [], {'filename': suite.OUTNAME}, NODE))
        if not isinstance(r, Ref):
            return None
        w.o = r
    else:
        w.call('fromfits', filename=suite.OUTNAME)
    it.pc = TRUE
    bb = [x for x in BATCHES if x.kind == b][0]
    kw = gal(w, bb, *names)
    for e in extra:
        kw[e] = scalar(MC, 'i', True) if e == 'mc' else boolv(True)
    ev0, nr0 = len(it.events), len(it.top_raises)
    it.pc = TRUE
    res = w.call(meth, **kw)
    c = Case(lab, it, '%s.%s' % (cls, meth), res, w, kw, ev0, nr0)
    out.ncases += 1
    out.note(it)
    return c


RANGE_METHS = [('reconstruct', 'bs'), ('reconstruct_out', 'bs'), ('kcorrect', 'bs'), ('absmag', ''), ('absmag', 'dist,all'), ('absmag_mc', ''), ('derived', ''), ('derived', 'dist'), ('derived_mc', '')]


def c20(tier):
    t = []
    for cls in ('Fitter', 'Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
        for b in ('scalar', 'one', 'many'):
            for tag in ('', 'mc'):
                l = label(cls, None, 'fit_coeffs', b, tag)
                t.append((l, c20_task(l, 'fit_coeffs')))
            for o in (None, True) if cls != 'Fitter' else (None,):
                for m, tag in RANGE_METHS:
                    if cls == 'Fitter' and m != 'reconstruct':
                        continue
                    l = label(cls, o, m, b, tag)
                    t.append((l, c20_task(l, m)))
    for cls in ('Kcorrect', 'KcorrectSDSS') if tier == 'quick' else KC:
        for o in (None, True):
            for m, names in (('fit_coeffs', ('redshift', 'maggies', 'ivar')), ('reconstruct', ('redshift', 'coeffs', 'band_shift')),
                             ('reconstruct_out', ('redshift', 'coeffs', 'band_shift')), ('kcorrect', ('redshift', 'coeffs', 'band_shift'))):
                for b in ('scalar', 'many'):
                    t.append(('%s %s reloaded %s %s' % (cls, o, m, b), c20_reload(cls, o, m, names, b)))
            t.append(('%s %s reloaded mc' % (cls, o), c20_reload(cls, o, 'fit_coeffs', ('redshift', 'maggies', 'ivar'), 'many', ('mc',))))
    return t


# ---------------------------------------------------------------- C02
def expected_dims(sp, meth, path, mc):
    """dimensions after the object axis"""
    no, ni, NT, MC = sp.nout, sp.nin, sp.w.ntempl, sp.w.mc
    if meth in ('fit_coeffs', 'fit_coeffs_asinh'):
        if not mc:
            return [NT] if path == '' else None
        return {'[0]': [NT], '[1]': [NT, MC], '[2]': [ni, MC]}.get(path)
    if meth == 'reconstruct':
        return [ni] if path == '' else None
    if meth in ('reconstruct_out', 'kcorrect'):
        return [no] if path == '' else None
    if meth == 'to_ab':
        return [ni]
    if meth in ('absmag', 'absmag_mc'):
        return [no] + ([MC] if meth.endswith('mc') else [])
    if meth in ('derived', 'derived_mc'):
        r = [MC] if meth.endswith('mc') else []
        return ([no] if path == '[mtol]' else []) + r
    return None


def want_paths(meth, name):
    tag = name.split('[')[-1]
    if meth in ('fit_coeffs', 'fit_coeffs_asinh'):
        return ['[0]', '[1]', '[2]'] if 'mc' in tag else ['']
    if meth == 'to_ab':
        return [''] if 'noivar' in tag else ['[0]', '[1]']
    if meth == 'absmag':
        return ['[%d]' % k for k in range(4)] if 'all' in tag else ['']
    if meth == 'absmag_mc':
        return ['[%d]' % k for k in range(3)] if 'all' in tag else ['']
    if meth in ('derived', 'derived_mc'):
        return ['[%s]' % k for k in DKEYS]
    return ['']


def c02_case(out, c, meth):
    where = out.src(c.entry)
    if lost(out, 'C02.returns', c, where):
        return
    sp = _spec(c)
    pc = good_pc(c)
    leaves = flat(c.it, off_val(c.it, c.result), pc)
    got = {}
    for p, cd, x in leaves:
        got.setdefault(p, []).append((cd, x))
    want = want_paths(meth, c.name)
    if sorted(got) != sorted(want):
        out.decide('C02.results', c.name, 'returns %s instead of %s' % (sorted(got), sorted(want)), where, pc.opq or vague(c.it, c.result, pc))
        return
    for p in want:
        e = expected_dims(sp, meth, p, 'mc' in c.name.split('[')[-1])
        if e is None:
            continue
        dims = sp.b.dims(*e)
        inst = c.name + (' ' + p if p else '')
        msg, defin = None, True
        for cd, x in got[p]:
            if cd is FALSE:
                continue
            try:
                a = c.it.arr(x)
            except (Unmodelled, ShapeErr, Dead):
                a = None
            if not isinstance(a, Arr):
                msg, defin = 'is %s, not an array' % kind_of(c.it, x), not isinstance(x, Opq) and not cd.opq
                continue
            r = shape_cmp(a, dims, cd)
            if not r:
                msg, defin = r.msg, r.definite and not cd.opq
        out.decide('C02.shape', inst, msg, where, not defin)
    # valid input is never refused because of sizes
    bad = out_range(sp, meth) if meth not in ('to_ab',) and not meth.startswith('fit') else FALSE
    for r in c.raises:
        p = And(NOFAIL(r['pc']), Not(bad))
        if r['exc'].name == 'ValueError' and p is not FALSE:
            p = restrict(NOFAIL(r['pc']), Not(bad))
        if p is FALSE:
            continue
        v = cmp_body(And(p, Not(bad)), FALSE, [], [])
        if v:
            continue
        out.decide('C02.valid-call-succeeds', '%s: %s' % (c.name, r['exc'].name), 'raises %s%s for valid input where %s' % (r['exc'].name, tuple(str(x)[:60] for x in r['exc'].args), v.msg),
                   r['where'], not v.definite)
        return
    out.ok('C02.valid-call-succeeds', c.name, where)


def shape_cmp(a, dims, cond):
    if a.ndim != len(dims):
        return Verdict('has %d dimensions instead of %d' % (a.ndim, len(dims)), not any(x.opq() for x in a.axes))
    for p, (x, d) in enumerate(zip(a.axes, dims)):
        if x.sel:
            return Verdict('axis %d has a data dependent length' % p, False)
        v = cmp_body(x.dim, d, [], [], cond)
        if not v:
            return Verdict('axis %d has length %s instead of %s' % (p, brief(x.dim, 80), brief(d, 80)), v.definite)
    return OK


def c02(tier):
    t = []

    def task(n, meth):
        def f(out):
            c = out.case(n)
            if c is not None:
                c02_case(out, c, meth)
        return f
    for n in suite.names():
        h = n.split('[')[0]
        m = h.split('.')[-1] if '.' in h else ''
        if m in ('fit_coeffs', 'fit_coeffs_asinh', 'to_ab', 'reconstruct', 'reconstruct_out', 'kcorrect', 'absmag', 'absmag_mc', 'derived', 'derived_mc'):
            t.append((n, task(n, m)))
    t += c02_small(tier)
    t += c02_util()
    return t


def c02_small(tier):
    """axes of length one: one band, one output band, one template, one realization"""
    one = {'nb': ONE, 'no': ONE, 'nt': ONE, 'mc': ONE}
    sizes = [('one realization', ['mc']), ('one band', ['nb', 'no']), ('one template', ['nt']), ('one output band', ['no'])]
    if tier == 'thorough':
        sizes += [('one input band', ['nb']), ('one of each', ['nb', 'no', 'nt', 'mc']), ('one template and realization', ['nt', 'mc'])]
    flags = {'reconstruct': boolv(True), 'limit': boolv(True), 'kcorrect': boolv(True)}
    base = ('maggies', 'ivar', 'redshift', 'coeffs', 'band_shift')
    bmc = ('maggies_mc', 'ivar', 'redshift', 'coeffs_mc', 'band_shift')
    kinds = [('fit_coeffs', '', ('redshift', 'maggies', 'ivar'), {}), ('fit_coeffs', 'mc', ('redshift', 'maggies', 'ivar'), {'mc': 1}),
             ('reconstruct', '', ('redshift', 'coeffs', 'band_shift'), {}), ('reconstruct_out', '', ('redshift', 'coeffs', 'band_shift'), {}),
             ('kcorrect', '', ('redshift', 'coeffs', 'band_shift'), {}), ('absmag', 'all', base, flags),
             ('absmag', 'dist,all', base + ('distance',), flags), ('derived', '', ('redshift', 'coeffs', 'band_shift'), {}),
             ('absmag_mc', 'all', bmc, {'reconstruct': boolv(True), 'kcorrect': boolv(True)}),
             ('derived_mc', '', ('redshift', 'coeffs_mc', 'band_shift'), {})]
    t = []
    for what, names in sizes:
        sz = dict((n, one[n]) for n in names)
        for cls, o in (('Kcorrect', None), ('Kcorrect', True)):
            if o is None and names == ['no'] or o and names == ['mc']:
                continue
            for meth, tag, args, extra in kinds:
                if names == ['mc'] and 'mc' not in meth + tag:
                    continue
                if o and meth in ('fit_coeffs', 'reconstruct'):
                    continue
                for bk, b in zip(('scalar', 'one', 'many'), BATCHES):
                    lab = '%s%s.%s[%s%s] %s' % (cls, '+out' if o else '', meth, bk, ',' + tag if tag else '', what)
                    t.append((lab, c02_small_task(lab, cls, o, meth, b, args, extra, sz)))
    return t


def c02_small_task(lab, cls, o, meth, b, args, extra, sz):
    def f(out):
        def build(w):
            d = gal(w, b, *args)
            for k, v in extra.items():
                d[k] = scalar(w.mc, 'i', True) if k == 'mc' else v
            return d
        c = method_case(out.prog, cls, meth, build, lab, dict(out=o, abcorrect=False, sizes=sz))
        out.ncases += 1
        out.note(c.it)
        c02_case(out, c, meth)
    return f


def c02_util():
    t = []

    def util(n, nout):
        def f(out):
            c = out.case(n)
            if c is None:
                return
            where = out.src(c.entry)
            if lost(out, 'C02.returns', c, where):
                return
            leaves = flat(c.it, c.result, c.pc)
            ps = sorted(set(p for p, cd, x in leaves))
            out.decide('C02.results', n, None if len(ps) == nout else 'returns %d values instead of %d' % (len(ps), nout), where,
                       c.pc.opq or vague(c.it, c.result, c.pc))
            b = batch_of(n)
            last = num(5) if 'sdss' in n else NI
            for p, cd, x in leaves:
                dims = b.dims(last)
                if n.startswith('maggies2flambda') and p == '[0]':
                    continue
                try:
                    a = c.it.arr(x)
                except (Unmodelled, ShapeErr, Dead):
                    a = None
                if not isinstance(a, Arr):
                    out.decide('C02.shape', '%s %s' % (n, p), 'is not an array', where, isinstance(x, Opq))
                    continue
                r = shape_cmp(a, dims, cd)
                out.decide('C02.shape', '%s %s' % (n, p), r.msg, where, not r.definite)
            for r in c.raises:
                if r['pc'] is not FALSE:
                    out.decide('C02.valid-call-succeeds', n, 'raises %s for valid input' % r['exc'].name, r['where'], r['pc'].opq)
                    return
            out.ok('C02.valid-call-succeeds', n, where)
        return f
    for n in suite.names('sdss_ab_correct', 'sdss_asinh_to_maggies', 'error_floor', 'maggies2flambda'):
        tag = n.split('[')[-1]
        two = ('ivar' in tag or 'err' in tag) and 'no' not in tag
        nout = {'error_floor': 1}.get(n.split('[')[0], 2 if two else 1)
        if n.startswith('maggies2flambda'):
            nout = 3 if two else 2
        t.append((n, util(n, nout)))
    return t


# ---------------------------------------------------------------- C03
GALNAMES = ('z', 'maggies', 'ivar', 'coeffs', 'coeffs_mc', 'maggies_mc', 'dist', 'mag', 'magerr', 'ext')


def c03_task(n_many, n_scalar, b, rename=GALNAMES):
    def f(out):
        c1 = out.case(n_many)
        if c1 is None:
            return
        c0 = out.case(n_scalar)
        where = out.src(c1.entry)
        if c0 is None or lost(out, 'C03.value', c1, where) or lost(out, 'C03.value', c0, where):
            return
        p1, p0 = good_pc(c1), good_pc(c0)
        d1 = whole(c1.it, off_val(c1.it, c1.result), p1)
        d0 = whole(c0.it, off_val(c0.it, c0.result), p0)
        if set(d0) != set(d1):
            out.decide('C03.results', n_many, 'returns %s for arrays and %s for one object' % (sorted(d1), sorted(d0)), where, p1.opq or p0.opq or
                       vague(c1.it, c1.result, p1) or vague(c0.it, c0.result, p0))
            return
        one = b == 'one'
        cnt = ONE if one else N

        def up(t):
            """the scalar term for object @0 of a batch; other indices move up by one"""
            m = {}
            for k in range(6):
                m[IX('@%d' % k)] = atomP(IX('@%d' % (k + 1)))
            t = subst(t, m)
            gi = ZERO if one else atomP(IX('@0'))

            def g(a):
                if a.op == 'in' and a.args[0] in rename:
                    return ('gal', a)
                return None
            return sub_in(t, lambda nm, fl, ix: inp(nm, fl, *([gi] + list(ix))) if nm in rename else None)

        def norng(t):
            return map_atoms(t, lambda a: inp('draw', FIN) if a.op == 'rng' else None)
        for p in sorted(d0):
            inst = n_many + (' ' + p if p else '')
            if n_many.startswith('maggies2flambda') and p == '[0]':
                continue
            a0 = merged(c0.it, off_val(c0.it, d0[p]))
            if a0 is None:
                # leaves with different forms: compare case by case
                out.und('C03.same-as-alone', inst, 'the result for one object is not one array')
                continue
            spec = Arr((Ax(cnt),) + a0.axes, norng(up(a0.body)), a0.dt)
            v1 = off_val(c1.it, d1[p])
            a1 = merged(c1.it, v1)
            if a1 is None:
                check(out, 'C03.same-as-alone', inst, c1.it, v1, spec, p1, where)
                continue
            a1 = Arr(a1.axes, norng(a1.body), a1.dt)
            if one and a1.ndim:
                a1 = Arr(a1.axes, subst(a1.body, {IX('@0'): ZERO}), a1.dt)
            # in the scalar calculation the object was in the range; in the batch every object is
            r = cmp_arr(a1, spec, And(p1, up(p0)) if not atoms(p0, lambda t: t.op == 'rng') else p1)
            out.decide('C03.same-as-alone', inst, r.msg, where, not r.definite)
    return f


def c03(tier):
    t = []
    for n in suite.names():
        for b in ('many', 'one'):
            if '[' + b in n:
                t.append((n, c03_task(n, n.replace('[' + b, '[scalar'), b)))
    return t
