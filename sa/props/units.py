"""Conversions of units, magnitudes and file formats: C04, C23, C24, C25, C26, C27."""
import os
from .common import *
from ..valuation import Valuation, same
from ..suite import Case, fresh, gal, free_world, callf, resp_world, reg, callm, run
from .fits import NOFAIL, good_pc, off_val

LN10 = lnE(num(10))
SDSS_OFF = [Fr(-36, 1000), Fr(12, 1000), Fr(10, 1000), Fr(28, 1000), Fr(40, 1000)]
SOFT = [Fr(14, 10 ** 11), Fr(9, 10 ** 11), Fr(12, 10 ** 11), Fr(18, 10 ** 11), Fr(74, 10 ** 11)]
KINDS = ('scalar', 'one', 'many')
SDSS_BANDS = ['sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0']
BANDS = {'KcorrectSDSS': SDSS_BANDS,
         'KcorrectGST': ['galex_FUV', 'galex_NUV'] + SDSS_BANDS + ['twomass_J', 'twomass_H', 'twomass_Ks']}


def closed(t):
    """number denoted by a term without inputs, or None"""
    if t.opq or t.fv or atoms(t, lambda a: a.op not in ('ln', 'exp', 'pow', 'sum')):
        return None
    try:
        return Valuation(1).ev(t, {})
    except Exception:
        return None


def band_const(k, xs):
    """xs[k] as a term of the band index"""
    if const(k) is not None:
        return num(xs[int(const(k))]) if not isinstance(xs[0], (P, D)) else xs[int(const(k))]
    r = num(xs[-1])
    for j in reversed(range(len(xs) - 1)):
        r = ite(cmp('==', k, num(j)), num(xs[j]), r)
    return r


def by_band(a, n):
    """[(j, Arr without its last axis)] of an array whose last axis has the constant length n; None where it has not"""
    if not a.axes or a.axes[-1].sel or const(a.axes[-1].dim) != n:
        return None
    v = axvars(a.ndim - 1, a.axes[-1])[0]
    return [(j, Arr(a.axes[:-1], subst(a.body, {v: num(j)}), a.dt)) for j in range(n)]


def near(out, rule, inst, it, v, spec, cond, where, tol):
    """equality up to a relative error tol of constants"""
    r = cmp_val(it, v, spec, cond)
    if r:
        out.ok(rule, inst, where)
        return True
    a = merged(it, v)
    if a is not None and a.ndim == spec.ndim and all(x.same(y) for x, y in zip(a.axes, spec.axes)):
        q = restrict(div(restrict(a.body, cond), restrict(spec.body, cond)), cond)
        cs = [closed(l) for l in leaves(q)]
        if cs and all(c is not None for c in cs):
            worst = max(cs, key=lambda c: abs(c - 1))
            if all(abs(c - 1) <= tol for c in cs):
                out.ok(rule, inst, where)
                return True
            out.bad(rule, inst, 'is %.6g times the documented value' % worst, where)
            return False
    if r.definite:
        out.bad(rule, inst, r.msg, where)
    else:
        out.und(rule, inst, r.msg, where)
    return False


def values_of(out, rule, c, n, where, cond):
    vs = []
    for k in range(n):
        v = nth(out, rule, c.name, where, c.it, c.result, n, k, cond)
        if v is None:
            return None
        vs.append(v)
    return vs


# ---------------------------------------------------------------- C04
def noivar(lab):
    if lab.startswith('sdss_ab') or lab.startswith('maggies2'):
        return lab.replace(',ivar', '')
    if lab.startswith('sdss_asinh'):
        return lab.replace(',err', '')
    return lab.replace(']', ',noivar]') if 'to_ab' in lab else None


def c04_linear(lab, first, name='maggies'):
    """flux = F * maggies and ivar = ivar / F**2 for the factor F read off the flux"""
    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C04.value', c, where):
            return
        n = first + 2
        vs = values_of(out, 'C04.results', c, n, where, c.pc)
        if vs is None:
            return
        a = merged(c.it, vs[first])
        if a is None:
            out.und('C04.factor', lab, 'the converted flux is not one array')
            return
        one = arr_map(a, lambda t: sub_in(t, lambda nm, fl, ix: ONE if nm == 'maggies' else None))
        own = Arr(a.axes, inp('maggies', FIN, *[mkv(p, a) for p in range(a.ndim)]), a.dt)
        owni = Arr(a.axes, inp('ivar', 'PZ', *[mkv(p, a) for p in range(a.ndim)]), a.dt)
        if any(ax.sel for ax in a.axes):
            out.und('C04.factor', lab, 'the converted flux has an unknown shape')
            return
        check(out, 'C04.flux-times-factor', lab, c.it, vs[first], Arr(a.axes, mul(one.body, own.body), a.dt), c.pc, where)
        check(out, 'C04.ivar-over-factor-squared', lab, c.it, vs[first + 1], Arr(a.axes, mul(owni.body, powE(one.body, Fr(-2))), a.dt), c.pc, where)
        same_without(out, lab, c, vs, first, where)
    return f


def mkv(p, a):
    return atomP(axvars(p, a.axes[p])[0])


def same_without(out, lab, c, vs, first, where):
    l0 = noivar(lab)
    c0 = out.case(l0) if l0 and l0 != lab else None
    if c0 is None:
        return
    if lost(out, 'C04.same-flux-without-ivar', c0, where):
        return
    if first == 0:
        v0 = c0.result
    else:
        v0 = nth(out, 'C04.same-flux-without-ivar', l0, where, c0.it, c0.result, first + 1, first, c0.pc)
    a0 = merged(c0.it, v0) if v0 is not None else None
    if a0 is None:
        ks = sorted(set(kind_of(c0.it, x) for cc, x in cases_of(c0.it, v0, c0.pc))) if v0 is not None else []
        out.decide('C04.same-flux-without-ivar', l0, 'without an inverse variance the flux is %s' % ', '.join(ks), where,
                   c0.pc.opq or any(isinstance(x, Opq) for cc, x in cases_of(c0.it, v0, c0.pc)))
        return
    check(out, 'C04.same-flux-without-ivar', lab, c.it, vs[first], a0, And(c.pc, c0.pc), where)


def c04_asinh(k):
    """extinction: the flux and inverse variance with extinction against those without"""
    def f(out):
        l1, l0 = 'sdss_asinh_to_maggies[%s,err,ext]' % k, 'sdss_asinh_to_maggies[%s,err]' % k
        c1, c0 = out.case(l1), out.case(l0)
        where = out.src(c1.entry)
        if lost(out, 'C04.value', c1, where) or lost(out, 'C04.value', c0, where):
            return
        v1, v0 = values_of(out, 'C04.results', c1, 2, where, c1.pc), values_of(out, 'C04.results', c0, 2, where, c0.pc)
        if v1 is None or v0 is None:
            return
        m1, i1, m0, i0 = merged(c1.it, v1[0]), merged(c1.it, v1[1]), merged(c0.it, v0[0]), merged(c0.it, v0[1])
        if any(x is None for x in (m1, i1, m0, i0)):
            out.und('C04.signal-to-noise', l1, 'not arrays')
            return
        # zero extinction factor: magnitude zero point of the substitution drops out of the ratio
        def factor(j, ix):
            return expE(mul(mul(num(Fr(4, 10)), LN10), inp('ext', FIN, *ix)))
        ax = m1.axes
        ix = [mkv(p, m1) for p in range(m1.ndim)]
        fac = factor(None, ix)
        check(out, 'C04.flux-times-factor', l1, c1.it, v1[0], Arr(ax, mul(m0.body, fac), m1.dt), c1.pc, where)
        check(out, 'C04.ivar-over-factor-squared', l1, c1.it, v1[1], Arr(ax, mul(i0.body, powE(fac, Fr(-2))), m1.dt), c1.pc, where)
        same_without(out, l1, c1, v1, 0, where)
        same_without(out, l0, c0, v0, 0, where)
    return f


def c04_abfix(k):
    """factors given by the caller"""
    def f(out):
        c = abfix_case(out, k, True)
        where = out.src(c.entry)
        if lost(out, 'C04.value', c, where):
            return
        vs = values_of(out, 'C04.results', c, 2, where, c.pc)
        a = merged(c.it, vs[0]) if vs else None
        if a is None:
            return
        fac = expE(mul(mul(num(Fr(-4, 10)), LN10), inp('abfix', FIN, mkv(a.ndim - 1, a))))
        ix = [mkv(p, a) for p in range(a.ndim)]
        check(out, 'C04.ivar-over-factor-squared', c.name, c.it, vs[1], Arr(a.axes, mul(inp('ivar', 'PZ', *ix), powE(fac, Fr(-2))), a.dt), c.pc, where)
    return f


def abfix_case(out, k, iv, aslist=False):
    it = free_world(out.prog)
    b = [x for x in BATCHES if x.kind == k][0]
    kw = {'maggies': b.arr(it, 'maggies', num(5))}
    if iv:
        kw['ivar'] = b.arr(it, 'ivar', num(5), flags='PZ')
    if aslist:
        kw['abfix'] = it.new(ListCell([Arr((), inp('abfix', FIN, num(j)), 'f8', True) for j in range(5)]))
    else:
        kw['abfix'] = symarr(it, 'abfix', [num(5)])
    lab = 'sdss_ab_correct[%s%s,abfix%s]' % (k, ',ivar' if iv else '', ' list' if aslist else '')
    c = Case(lab, it, 'sdss_ab_correct', callf(it, 'sdss_ab_correct', **kw))
    out.ncases += 1
    out.note(it)
    return c


def c04(tier):
    t = []
    for k in KINDS:
        t.append(('sdss_ab_correct ' + k, c04_linear('sdss_ab_correct[%s,ivar]' % k, 0)))
        t.append(('abfix ' + k, c04_abfix(k)))
        t.append(('maggies2flambda ' + k, c04_linear('maggies2flambda[%s,ivar]' % k, 1)) if k != 'scalarx' else None)
        t.append(('asinh ' + k, c04_asinh(k)))
        for cls in ('Fitter', 'Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
            t.append(('%s.to_ab %s' % (cls, k), c04_linear('%s.to_ab[%s]' % (cls, k), 0)))
    return [x for x in t if x]


# ---------------------------------------------------------------- C23
def asinh_terms(ix, ext):
    """flux and derivative of the asinh magnitude of band ix[-1]"""
    k = ix[-1]
    mag = inp('mag', FIN, *ix)

    def flux(j):
        b = num(SOFT[j])
        f = mul(mul(num(2), b), sinhE(sub(neg(lnE(b)), mul(mul(num(Fr(4, 10)), LN10), mag))))
        if ext:
            f = mul(f, expE(mul(mul(num(Fr(4, 10)), LN10), inp('ext', FIN, *ix))))
        return f

    def deriv(j):
        b = num(SOFT[j])
        d = mul(mul(mul(num(2), b), coshE(sub(neg(lnE(b)), mul(mul(num(Fr(4, 10)), LN10), mag)))), mul(num(Fr(4, 10)), LN10))
        if ext:
            d = mul(d, expE(mul(mul(num(Fr(4, 10)), LN10), inp('ext', FIN, *ix))))
        return d

    def sel(g):
        if const(k) is not None:
            return g(int(const(k)))
        r = g(4)
        for j in (3, 2, 1, 0):
            r = ite(cmp('==', k, num(j)), g(j), r)
        return r
    return sel(flux), sel(lambda j: powE(mul(deriv(j), inp('magerr', 'P', *ix)), Fr(-2)))


def c23_task(lab):
    def f(out):
        c = out.case(lab)
        where = out.src(c.entry)
        if lost(out, 'C23.value', c, where):
            return
        err, ext = ',err' in lab, ',ext' in lab
        vs = values_of(out, 'C23.results', c, 2 if err else 1, where, c.pc)
        if vs is None:
            return
        b = batch_of(lab)
        for k, nm in enumerate(['flux', 'ivar'][:len(vs)]):
            spec = from_fn(b.dims(num(5)), lambda *ix: asinh_terms([x if isinstance(x, (P, D)) else atomP(x) for x in ix], ext)[k], 'f4')
            check(out, 'C23.' + nm, lab, c.it, vs[k], spec, c.pc, where)
    return f


def c23_fit(k, abc, ext):
    """asinh fits are maggies fits of the converted magnitudes"""
    lab = 'KcorrectSDSS.fit_coeffs_asinh[%s%s%s]' % (k, ',ab' if abc else '', ',ext' if ext else '')

    def conv(it, f, env, node):
        vs = dict(env)
        mag, err, x = vs.get('mag'), vs.get('mag_err'), vs.get('extinction')
        names = [n for n in env]
        if mag is None and names:
            mag = env[names[0]]
        a = it.arr(mag)
        e = it.arr(err) if err is not None else None
        xx = it.arr(x) if x is not None else None

        def one(name, flags):
            args = [b2n(a.body)] + [b2n(q.body) for q in (e, xx) if q is not None]
            return it.mkarr(Arr(a.axes, lift(lambda *ts: inp(name, flags, *ts), *args), 'f4'))
        if e is None:
            return one('asinh.flux', FIN)
        return Tup([one('asinh.flux', FIN), one('asinh.ivar', 'PZ')])

    def f(out):
        where = out.src('KcorrectSDSS.fit_coeffs_asinh')
        b = [x for x in BATCHES if x.kind == k][0]
        res = []
        for asinh in (True, False):
            w = fresh(out.prog, 'KcorrectSDSS', abcorrect=abc, tables='abstract', overrides={'sdss_asinh_to_maggies': conv})
            it = w.it
            kw = {'redshift': b.arr(it, 'z')}
            if asinh:
                kw.update(mag=b.arr(it, 'mag', num(5)), mag_err=b.arr(it, 'magerr', num(5), flags='P'))
                if ext:
                    kw['extinction'] = b.arr(it, 'ext', num(5))
            else:
                def mk_in(name, flags):
                    def g(*ix):
                        args = [inp('mag', FIN, *ix), inp('magerr', 'P', *ix)] + ([inp('ext', FIN, *ix)] if ext else [])
                        return inp(name, flags, *args)
                    return it.new(ArrCell(from_fn(b.dims(num(5)), g, 'f4'), 'argument ' + name))
                kw.update(maggies=mk_in('asinh.flux', FIN), ivar=mk_in('asinh.ivar', 'PZ'))
            ev0, nr0 = len(it.events), len(it.top_raises)
            it.pc = TRUE
            r = w.call('fit_coeffs_asinh' if asinh else 'fit_coeffs', **kw)
            c = Case(lab, it, 'KcorrectSDSS.fit_coeffs_asinh', r, w, kw, ev0, nr0)
            out.ncases += 1
            out.note(it)
            if lost(out, 'C23.fit', c, where):
                return
            res.append(c)
        a = merged(res[1].it, off_val(res[1].it, res[1].result))
        if a is None:
            out.und('C23.fit-uses-these-fluxes', lab, 'the fit is not one array')
            return
        check(out, 'C23.fit-uses-these-fluxes', lab, res[0].it, off_val(res[0].it, res[0].result), a, NOFAIL(And(res[0].pc, res[1].pc)), where)
    return f


def c23(tier):
    t = []
    for n in suite.names('sdss_asinh_to_maggies'):
        t.append((n, c23_task(n)))
    for k in KINDS:
        for abc in (False, True):
            for ext in (False, True):
                t.append(('fit %s %s %s' % (k, abc, ext), c23_fit(k, abc, ext)))
    return t


# ---------------------------------------------------------------- C24
def c24_task(lab):
    def f(out):
        c = out.case(lab)
        where = out.src(c.entry)
        if lost(out, 'C24.value', c, where):
            return
        b = batch_of(lab)

        def term(*ix):
            ix = list(ix)
            m, iv, fl = inp('maggies', FIN, *ix), inp('ivar', 'PZN', *ix), inp('floor', 'P', ix[-1])
            new = powE(mul(absE(m), fl), Fr(-2))
            low = And(cmp('>', iv, ZERO), cmp('>', mul(mul(absE(m), fl), powE(iv, Fr(1, 2))), ONE))
            return ite(low, new, iv)
        check(out, 'C24.floor', lab, c.it, c.result, from_fn(b.dims(NI), term, 'f4'), c.pc, where)
    return f


def c24(tier):
    return [(n, c24_task(n)) for n in suite.names('error_floor')]


# ---------------------------------------------------------------- C25
def c25_offsets(lab, lo, nb):
    """documented offsets for bands lo..lo+4, nothing for the others"""
    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C25.value', c, where):
            return
        two = 'noivar' not in lab and ('to_ab' in lab or 'ivar' in lab)
        v = values_of(out, 'C25.results', c, 2 if two else 1, where, c.pc)
        if v is None:
            return
        b = batch_of(lab)

        def term(*ix):
            m = inp('maggies', FIN, *ix)
            for j in range(5):
                m = ite(cmp('==', ix[-1], num(lo + j)), mul(inp('maggies', FIN, *ix), expE(mul(num(-SDSS_OFF[j] * Fr(4, 10)), LN10))), m)
            return m
        near(out, 'C25.offsets', lab, c.it, v[0], from_fn(b.dims(num(nb)), term, 'f4'), c.pc, where, 2e-6)
    return f


def c25_given(k, aslist):
    def f(out):
        for iv in (False, True):
            c = abfix_case(out, k, iv, aslist)
            where = out.src(c.entry)
            if lost(out, 'C25.value', c, where):
                return
            v = values_of(out, 'C25.results', c, 2 if iv else 1, where, c.pc)
            if v is None:
                return
            b = [x for x in BATCHES if x.kind == k][0]

            def term(*ix):
                return mul(inp('maggies', FIN, *ix), expE(mul(mul(num(Fr(-4, 10)), LN10), inp('abfix', FIN, ix[-1]))))
            check(out, 'C25.given-offsets', c.name, c.it, v[0], from_fn(b.dims(num(5)), term, 'f4'), c.pc, where)
    return f


def c25_identity(lab):
    """classes without a documented correction leave the fluxes alone"""
    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C25.value', c, where):
            return
        two = 'noivar' not in lab
        v = values_of(out, 'C25.results', c, 2 if two else 1, where, c.pc)
        if v is None:
            return
        b = batch_of(lab)
        for x, n, fl in zip(v, ('maggies', 'ivar'), (FIN, 'PZ')):
            check(out, 'C25.others-unchanged', '%s %s' % (lab, n), c.it, x, from_fn(b.dims(NI), lambda *ix: inp(n, fl, *ix), 'f4'), c.pc, where)
    return f


def list_strings(it, v):
    """list of the strings of a list value, or None"""
    vs = [x for c, x in cases_of(it, v)]
    if len(vs) != 1:
        return None
    v = vs[0]
    if isinstance(v, Tup):
        xs = v.items
    elif isinstance(v, Ref) and isinstance(it.heap[v.cid], ListCell):
        xs = it.heap[v.cid].items
    else:
        return None
    return list(xs) if all(isinstance(x, str) for x in xs) else None


def realpath(prog, name):
    """file in the working tree of a name under the package directory"""
    root = os.path.dirname(next(iter(prog.files.values()))[0])
    return os.path.join(root, name[len('<PKG>/'):]) if isinstance(name, str) and name.startswith('<PKG>/') else None


def c25_defaults(cls):
    def f(out):
        where = out.src(cls + '.__init__')
        try:
            w = World(out.prog, cls, abcorrect='default', tables='abstract')
        except AnchorError as e:
            if 'FileNotFoundError' in str(e):
                out.bad('C25.default-files-exist', cls + ' template', 'a file of the package that does not exist is opened: %s' % e, where)
                return
            raise
        it = w.it
        out.ncases += 1
        out.note(it)
        for at in ('responses', 'responses_out', 'responses_map'):
            v = w.attr(at)
            got = list_strings(it, v) if v is not None else None
            opq = isinstance(v, Opq)
            if cls == 'Kcorrect':
                continue
            out.decide('C25.default-bands', '%s.%s' % (cls, at), None if got == BANDS[cls] else 'are %s instead of %s' % (got, BANDS[cls]), where, opq)
        v = w.attr('abcorrect')
        t = it.truth(v) if v is not None else None
        want = {'Kcorrect': FALSE, 'KcorrectSDSS': TRUE, 'KcorrectGST': FALSE}[cls]
        out.decide('C25.default-abcorrect', cls, None if t is want else 'is %s' % (brief(t) if t is not None else 'missing'), where, t is not None and t.opq)
        # the template file it reads
        n = 0
        for e in w.ctor_events:
            if e.kind == 'open' and e.data.get('what') == 'fits':
                nm = e.data.get('name')
                p = realpath(out.prog, nm) if isinstance(nm, str) else None
                n += 1
                if p is None:
                    out.und('C25.default-files-exist', '%s template' % cls, 'unknown file name %s' % (nm,))
                else:
                    out.decide('C25.default-files-exist', '%s %s' % (cls, nm), None if os.path.exists(p) else 'the file does not exist', where)
        if not n:
            out.und('C25.default-files-exist', cls + ' template', 'no template file is opened')
    return f


def c25_response_files(name):
    """the file a default response is loaded from exists"""
    def f(out):
        it = resp_world(out.prog)
        r = reg(it)
        ev0 = len(it.events)
        callm(it, r, 'load_response', response=name)
        out.ncases += 1
        out.note(it)
        where = out.src('ResponseDict.load_response')
        names = [e.data.get('name') for e in it.events[ev0:] if e.kind == 'open']
        if not names:
            out.und('C25.default-files-exist', name, 'no file is opened to load it')
        for nm in names:
            p = realpath(out.prog, nm) if isinstance(nm, str) else None
            if p is None:
                out.und('C25.default-files-exist', name, 'unknown file name %s' % (nm,))
            else:
                out.decide('C25.default-files-exist', '%s %s' % (name, nm), None if os.path.exists(p) else 'the file does not exist', where)
    return f


def c25(tier):
    t = []
    for k in KINDS:
        for iv in ('', ',ivar'):
            t.append(('sdss %s%s' % (k, iv), c25_offsets('sdss_ab_correct[%s%s]' % (k, iv), 0, 5)))
        for iv in ('', ',noivar'):
            t.append(('SDSS.to_ab %s%s' % (k, iv), c25_offsets('KcorrectSDSS.to_ab[%s%s]' % (k, iv), 0, 5)))
            t.append(('GST.to_ab %s%s' % (k, iv), c25_offsets('KcorrectGST.to_ab[%s%s]' % (k, iv), 2, 10)))
            for cls in ('Fitter', 'Kcorrect'):
                t.append(('%s.to_ab %s%s' % (cls, k, iv), c25_identity('%s.to_ab[%s%s]' % (cls, k, iv))))
        for l in (False, True):
            t.append(('abfix %s %s' % (k, l), c25_given(k, l)))
    for cls in ('Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
        t.append(('defaults ' + cls, c25_defaults(cls)))
    for n in BANDS['KcorrectGST']:
        t.append(('file ' + n, c25_response_files(n)))
    return t


# ---------------------------------------------------------------- C26
PARAMS = ('modelno', 'teff', 'logg', 'mh', 'vturb', 'xh')


def c26_task(out):
    c = out.case('read_basel')
    where = out.src('read_basel')
    if lost(out, 'C26.value', c, where):
        return
    vs = values_of(out, 'C26.results', c, 3, where, c.pc)
    if vs is None:
        return
    it = c.it
    text = None
    a = merged(it, vs[1])
    found = atoms(a.body, lambda t: t.op == 'word') if a is not None else []
    if not found:
        out.und('C26.wavelengths', 'read_basel', 'the wavelengths are not words of the file')
        return
    text = next(iter(found)).args[0]
    names = atoms(text, lambda t: t.op == 'filetext') if isinstance(text, Node) else []

    def word(i):
        return mk('parse', mk('word', text, i))
    nm = div(sub(mk('nwords', text), num(1221)), num(1227))
    nmodels = None
    f = merged(it, vs[2])
    if f is None or f.ndim != 2 or f.axes[0].sel:
        out.decide('C26.fluxes', 'read_basel', 'the fluxes are not a table of models and wavelengths', where, f is None)
        return
    nmodels = f.axes[0].dim
    want = mk('fdiv', sub(mk('nwords', text), num(1221)), num(1227))
    check_terms(out, 'C26.number-of-models', 'read_basel', nmodels, want, c.pc, where)
    check(out, 'C26.wavelengths', 'read_basel', it, vs[1], from_fn([num(1221)], lambda i: word(i), 'f4'), c.pc, where)
    check(out, 'C26.fluxes', 'read_basel', it, vs[2], from_fn([nmodels, num(1221)], lambda i, j: word(add(add(num(1227), mul(num(1227), i)), j)), 'f4'), c.pc, where)
    d = dict_vals(it, vs[0], PARAMS, c.pc)
    if d is None:
        out.bad('C26.parameters', 'read_basel', 'the parameters are not a dictionary', where)
        return
    for p, key in enumerate(PARAMS):
        check(out, 'C26.parameters', 'read_basel %s' % key, it, d[key],
              from_fn([nmodels], lambda i: word(add(num(1221 + p), mul(num(1227), i))), 'f4'), c.pc, where)


def c26(tier):
    return [('read_basel', c26_task)]


# ---------------------------------------------------------------- C27
AB0 = Fr('3631e-23') * Fr('2.99792458e18')


def c27_ab(out):
    c = out.case('sed_ab')
    where = out.src('sed_ab')
    if lost(out, 'C27.value', c, where):
        return
    spec = from_fn([NW], lambda i: mul(num(AB0), powE(inp('wave', 'P', i), Fr(-2))), 'f4')
    near(out, 'C27.ab-source', 'sed_ab', c.it, c.result, spec, c.pc, where, 3e-4)


def c27_flam(lab):
    def f(out):
        c = out.case(lab)
        where = out.src(c.entry)
        if lost(out, 'C27.value', c, where):
            return
        n = 3 if ',ivar' in lab else 2
        vs = values_of(out, 'C27.results', c, n, where, c.pc)
        if vs is None:
            return
        b = batch_of(lab)

        def lam(j):
            return mk('respP', 'lambda_eff', symname('RESP', j))
        check(out, 'C27.wavelengths', lab, c.it, vs[0], from_fn([NI], lam, 'f4'), c.pc, where)
        spec = from_fn(b.dims(NI), lambda *ix: mul(mul(num(AB0), powE(lam(ix[-1]), Fr(-2))), inp('maggies', FIN, *ix)), 'f4')
        near(out, 'C27.flux-density', lab, c.it, vs[1], spec, c.pc, where, 3e-4)
        if n == 3:
            spec = from_fn(b.dims(NI), lambda *ix: mul(powE(mul(num(AB0), powE(lam(ix[-1]), Fr(-2))), Fr(-2)), inp('ivar', 'PZ', *ix)), 'f4')
            near(out, 'C27.ivar', lab, c.it, vs[2], spec, c.pc, where, 6e-4)
        # bands are loaded before their curve is used
        bands_loaded(out, 'C27.loaded-first', lab, c)
    return f


def c27(tier):
    return [('sed_ab', c27_ab)] + [(n, c27_flam(n)) for n in suite.names('maggies2flambda')]
