"""C15, C21, C22, C28: filter curves.

The specification is a second set of definitions (REF), written from the property texts and evaluated by the same
abstract interpreter on the same symbolic curve; the results of the package are compared with it term by term.
"""
from .common import *
from ..suite import *
from .. import valuation
from .spectra import sed_attrs

REF = '''
import astropy.io.ascii
import numpy as np
import scipy.integrate as integrate
import scipy.interpolate as interpolate
import scipy.optimize as optimize


def curve(x, y):
    i = np.argsort(x)
    return x[i], y[i]


def read(name):
    t = astropy.io.ascii.read(name, format='fixed_width')
    return t['lambda'], t['pass']


def spline(w, r):
    return interpolate.interp1d(w, r, kind='cubic', bounds_error=False, fill_value=0.)


def lambda_eff(w, r):
    return np.exp(integrate.trapezoid(np.log(w) * (r / w), w) / integrate.trapezoid(r / w, w))


def fwhm_low(w, r):
    f = spline(w, r)
    top = f(w).max()
    y = f(w) / top
    k = np.where(y > 0.5)[0][0]
    if(k == 0):
        return w[k]
    return optimize.brentq(lambda x: f(x) / top - 0.5, w[k - 1], w[k])


def fwhm_high(w, r):
    f = spline(w, r)
    top = f(w).max()
    y = f(w) / top
    k = np.where(y >= 0.5)[0][-1]
    if(k == len(w) - 1):
        return w[-1]
    return optimize.brentq(lambda x: f(x) / top - 0.5, w[k], w[k + 1])


def maggies(w, r, swave, sflux):
    f = spline(w, r)
    s = interpolate.interp1d(swave, sflux, kind='cubic', bounds_error=False, fill_value=0.)
    use = (swave >= w[0]) & (swave <= w[-1])
    inside = np.where(use)[0]
    if(len(inside) == 0):
        return 0.
    if(inside[0] > 0):
        use[inside[0] - 1] = True
    if(inside[-1] < len(swave) - 1):
        use[inside[-1] + 1] = True
    grid = np.unique(np.append(swave[use], w))
    ab = 3.631e-20 * 2.99792e+18 / grid**2
    return integrate.trapezoid(s(grid) * f(grid) * grid, grid) / integrate.trapezoid(ab * f(grid) * grid, grid)


def flux_at(wave, flux, radius, pc):
    w = wave * 10.
    f = 4. * np.pi * flux * 2.99792e+18 / w**2 * (radius / (pc * 3.086e+18))**2
    return w, f


def magnitude(w, r, swave, sflux):
    m = maggies(w, r, swave, sflux)
    if(m > 0):
        return -2.5 * np.log10(m)
    return None
'''


class Ref_(object):
    """the specification, evaluated in the interpreter of one case"""

    def __init__(self, it):
        self.it = it
        m = ModV('<specification>', '<specification>')
        m.loaded = True
        fr = Frame(None, m, m.env, name='<specification>')
        it.frames.append(fr)
        it.quiet += 1
        try:
            for st in ast.parse(REF).body:
                it.exec_stmt(st)
        finally:
            it.quiet -= 1
            m.env = it.frames[-1].env
            it.frames.pop()
        self.env = m.env

    def __call__(self, name, *args):
        it = self.it
        ev, tr = len(it.events), len(it.top_raises)
        pc, it.pc = it.pc, TRUE
        um = len(it.unmodelled)
        it.quiet += 1
        try:
            v = run(it, lambda: it.call(self.env[name], list(args), {}, NODE))
        finally:
            it.quiet -= 1
        bad = it.unmodelled[um:]
        del it.events[ev:], it.top_raises[tr:], it.unmodelled[um:]
        it.pc = pc
        if v is None and bad:
            raise AnchorError('the specification cannot be evaluated: %s' % (bad[:1],))
        return v


NF = dim('NFILE')
RFILE = '<CWD>/stored.fits'
PC10 = num(10)


def stored_response(it):
    """a FITS table holding a curve in arbitrary order"""
    rec = Lib('frec', n=num(1), fields=(
        ('wave', 'f4', (NF,), from_fn([ONE, NF], lambda i, j: inp('fitswl', 'P', j), 'f4')),
        ('response', 'f4', (NF,), from_fn([ONE, NF], lambda i, j: inp('frresp', 'PZ', j), 'f4'))))
    LibModel().fs_write(it, RFILE, (Lib('fhdu', name='PRIMARY', type='primary', data=None), Lib('fhdu', name='', type='table', data=rec)))


def raw_arrays(it, spec):
    return symarr(it, 'rwave', [NR], 'P'), symarr(it, 'rresp', [NR], 'PZ')


def raw_file(it, spec, name=DATNAME):
    t = spec('read', name)
    return tuple(t.items) if isinstance(t, Tup) else None


def raw_fits(it, spec):
    return (symarr(it, 'fitswl', [NF], 'P'), symarr(it, 'frresp', [NF], 'PZ'))


def s_arrays(it):
    return make_resp(it, 'arrays')


def s_dat(it):
    return make_resp(it, 'dat')


def s_relative(it):
    o = make_resp(it, 'none')
    callm(it, o, 'fromdat', filename='band.dat')
    return o


def s_redat(it):
    o = make_resp(it, 'arrays')
    callm(it, o, 'fromdat', filename=DATNAME)
    return o


def s_redat2(it):
    o = make_resp(it, 'dat')
    callm(it, o, 'fromdat', filename='<CWD>/other.dat')
    return o


def s_emptydat(it):
    o = make_resp(it, 'none')
    callm(it, o, 'fromdat', filename=DATNAME)
    return o


def s_fits(it):
    stored_response(it)
    o = make_resp(it, 'none')
    callm(it, o, 'fromfits', filename=RFILE)
    return o


def s_refits(it):
    stored_response(it)
    o = make_resp(it, 'arrays')
    callm(it, o, 'fromfits', filename=RFILE)
    return o


def s_save(it):
    o = make_resp(it, 'arrays')
    callm(it, o, 'tofits', filename=OUTNAME)
    o2 = make_resp(it, 'none')
    callm(it, o2, 'fromfits', filename=OUTNAME)
    return o2


SETTERS = ('set_interp', 'set_lambda_eff', 'set_solar_magnitude', 'set_vega2ab', 'set_fwhm_limits')


def s_again(it):
    o = make_resp(it, 'arrays')
    for m in SETTERS:
        callm(it, o, m)
    return o


def s_project(it):
    o = make_resp(it, 'arrays')
    callm(it, o, 'project', wave=symarr(it, 'wave', [NW], 'P'), flux=symarr(it, 'flux', [NT, NW], 'PZ'))
    callm(it, o, 'tofits', filename=OUTNAME)
    return o


def s_replaced(it):
    """the curve replaced by hand, then every setter called"""
    o = make_resp(it, 'arrays')
    spec = Ref_(it)
    t = spec('curve', *raw_fits(it, spec))
    run(it, lambda: it.setattr(o, 'wave', t.items[0], NODE))
    run(it, lambda: it.setattr(o, 'response', t.items[1], NODE))
    for m in SETTERS:
        callm(it, o, m)
    return o


# name: (construction, raw curve, entry, whether nwave is the loader's)
HISTORIES = {
    'arrays': (s_arrays, raw_arrays, 'Response.__init__'),
    'file': (s_dat, raw_file, 'Response.fromdat'),
    'empty,fromdat relative': (s_relative, lambda it, s: raw_file(it, s, '<PKG>/data/responses/band.dat'), 'Response.fromdat'),
    'arrays,fromdat': (s_redat, raw_file, 'Response.fromdat'),
    'file,fromdat': (s_redat2, lambda it, s: raw_file(it, s, '<CWD>/other.dat'), 'Response.fromdat'),
    'empty,fromdat': (s_emptydat, raw_file, 'Response.fromdat'),
    'empty,fromfits': (s_fits, raw_fits, 'Response.fromfits'),
    'arrays,fromfits': (s_refits, raw_fits, 'Response.fromfits'),
    'arrays,tofits,fromfits': (s_save, raw_arrays, 'Response.fromfits'),
    'arrays,setters': (s_again, raw_arrays, 'Response._setup'),
    'arrays,project,tofits': (s_project, raw_arrays, 'Response.project'),
    'curve replaced,setters': (s_replaced, raw_fits, 'Response._setup'),
}
NUMBERS = ('lambda_eff', 'fwhm_low', 'fwhm_high', 'fwhm', 'solar_magnitude', 'vega2ab')


def rworld(out):
    it = resp_world(out.prog)
    return it


def curve_ready(out, it, hist):
    """(object, its attributes, specification, specified curve)"""
    make, raw, entry = HISTORIES[hist]
    spec = Ref_(it)
    o = make(it)
    pc = it.pc
    r = raw(it, spec)
    if r is None:
        raise AnchorError('the specified curve of %s is unknown' % hist)
    t = spec('curve', *r)
    it.pc = pc
    out.note(it)
    out.ncases += 1
    return o, sed_attrs(it, o), spec, tuple(t.items), out.src(entry)


def is_none(it, v, cond):
    """condition under which an optional value is None"""
    return Or(FALSE, *[c for c, x in cases_of(it, v, cond) if x is None])


def check_opt(out, rule, inst, it, v, spec, pc, where, tol=1e-6, atol=1e-30):
    """an optional number: None exactly where specified, equal elsewhere"""
    un = [c for c, x in cases_of(it, v, pc) if x is UNBOUND]
    if un:
        out.decide(rule, inst, 'is not set', where, Or(FALSE, *un).opq)
        return
    a, b = is_none(it, v, pc), is_none(it, spec, pc)
    r = cmp_body(a, b, [], [], pc)
    if not r:
        (out.bad if r.definite else out.und)(rule, inst, 'is None under another condition: ' + r.msg, where)
        return
    und = None
    for c, x in cases_of(it, v, pc):
        for d, y in cases_of(it, spec, c):
            if x is None or y is None:
                continue
            with valuation.loosened(tol, atol):
                r = cmp_val(it, x, it.arr(y), d)
            if not r and r.definite:
                out.bad(rule, inst, r.msg, where)
                return
            und = und if r or und is not None else r.msg
    if und is not None:
        out.und(rule, inst, und, where)
    else:
        out.ok(rule, inst, where)


def check_interp(out, rule, inst, it, v, spec, pc, where):
    """both values are interpolators over the same samples with the same settings"""
    for c, x in cases_of(it, v, pc):
        for d, y in cases_of(it, spec, c):
            if not (isinstance(x, Lib) and x.kind == 'interp'):
                out.decide(rule, inst, 'is %s, not an interpolator' % kind_of(it, x), where, d.opq or isinstance(x, Opq))
                return
            if x is y:
                continue
            if x.d.get('opts') != y.d.get('opts') or x.d.get('axis') != y.d.get('axis'):
                out.decide(rule, inst, 'has settings %s instead of %s' % (x.d.get('opts'), y.d.get('opts')), where, d.opq)
                return
            for k in ('x', 'y'):
                r = cmp_arr(x.d[k], y.d[k], d)
                if not r:
                    (out.bad if r.definite else out.und)(rule, inst, 'samples %s: %s' % (k, r.msg), where)
                    return
    out.ok(rule, inst, where)


# ---------------------------------------------------------------- C15
def c15_curve(hist):
    def f(out):
        it = rworld(out)
        o, at, spec, (w, r), where = curve_ready(out, it, hist)
        pc = it.pc
        if pc is FALSE:
            out.bad('C15.loads', hist, 'never succeeds: %s' % [(x['exc'].name, x['where']) for x in it.top_raises][:2], where)
            return
        w, r = it.arr(w), it.arr(r)
        check(out, 'C15.sorted', hist + ' wave', it, at.get('wave', UNBOUND), w, pc, where)
        check(out, 'C15.paired', hist + ' response', it, at.get('response', UNBOUND), r, pc, where)
        if hist != 'curve replaced,setters':
            check(out, 'C15.nwave', hist, it, at.get('nwave', UNBOUND), Arr((), w.axes[0].dim, 'i', True), pc, where)
    return f


def c15_fresh(hist):
    """every derived attribute is that of a new object made from the final curve"""
    def f(out):
        it = rworld(out)
        o, at, spec, cur, where = curve_ready(out, it, hist)
        pc = it.pc
        if pc is FALSE:
            return
        w, r = at.get('wave'), at.get('response')
        cls = find_class(it, 'Response')
        new = run(it, lambda: it.instantiate(cls, [], {'wave': it.new(ArrCell(it.arr(w))), 'response': it.new(ArrCell(it.arr(r)))}, NODE))
        if not isinstance(new, Ref):
            out.und('C15.current', hist, 'a new object cannot be made from the curve', where)
            return
        b = sed_attrs(it, new)
        check_interp(out, 'C15.current', hist + ' interp', it, at.get('interp', UNBOUND), b.get('interp', UNBOUND), pc, where)
        for k in NUMBERS:
            check_opt(out, 'C15.current', '%s %s' % (hist, k), it, at.get(k, UNBOUND), b.get(k, UNBOUND), pc, where)
    return f


def c15(tier):
    return [('C15 curve %s' % h, c15_curve(h)) for h in HISTORIES] + [('C15 fresh %s' % h, c15_fresh(h)) for h in HISTORIES]


# ---------------------------------------------------------------- C28
def c28_task(hist, what):
    def f(out):
        it = rworld(out)
        o, at, spec, (w, r), where = curve_ready(out, it, hist)
        pc = it.pc
        if pc is FALSE:
            return
        if what == 'lambda_eff':
            check(out, 'C28.lambda-eff', hist, it, at.get('lambda_eff', UNBOUND), it.arr(spec('lambda_eff', w, r)), pc, out.src('Response.set_lambda_eff'))
        else:
            where = out.src('Response.set_fwhm_limits')
            lo, hi = it.arr(spec('fwhm_low', w, r)), it.arr(spec('fwhm_high', w, r))
            check(out, 'C28.low', hist, it, at.get('fwhm_low', UNBOUND), lo, pc, where)
            check(out, 'C28.high', hist, it, at.get('fwhm_high', UNBOUND), hi, pc, where)
            check(out, 'C28.width', hist, it, at.get('fwhm', UNBOUND), Arr((), sub(hi.body, lo.body), 'f8'), pc, where)
    return f


def c28(tier):
    hs = ('arrays', 'file', 'empty,fromfits', 'arrays,setters')
    return [('C28 %s %s' % (h, k), c28_task(h, k)) for h in hs for k in ('lambda_eff', 'fwhm')]


# ---------------------------------------------------------------- C22
MODELS = {'solar_magnitude': ('sun', Fr(69600000000), 10, 'Response.set_solar_magnitude'),
          'vega2ab': ('vega', Fr(191144000000), Fr('7.68'), 'Response.set_vega2ab')}


def c22_task(hist, attr):
    tag, radius, pcs, entry = MODELS[attr]

    def f(out):
        it = rworld(out)
        o, at, spec, (w, r), where = curve_ready(out, it, hist)
        pc = it.pc
        if pc is FALSE:
            return
        bw = it.new(ArrCell(from_fn([NBS], lambda i: inp('basel.%s.wave' % tag, 'P', i), 'f4')))
        bf = it.new(ArrCell(from_fn([NBS], lambda i: inp('basel.%s.flux' % tag, 'PZ', i), 'f4')))
        t = spec('flux_at', bw, bf, scalar(num(radius), 'f8', True), scalar(num(pcs), 'f8', True))
        m = spec('magnitude', w, r, *t.items)
        # differences of the physical constants below 0.1% of a magnitude do not count
        check_opt(out, 'C22.' + attr, hist, it, at.get(attr, UNBOUND), m, pc, out.src(entry), tol=0, atol=1e-3)
    return f


def c22(tier):
    return [('C22 %s %s' % (h, k), c22_task(h, k)) for h in ('arrays', 'file', 'arrays,setters') for k in MODELS]


# ---------------------------------------------------------------- C21
def c21_task(kind):
    def f(out):
        it = rworld(out)
        spec = Ref_(it)
        o = make_resp(it, 'arrays')
        t = spec('curve', *raw_arrays(it, spec))
        w, r = t.items
        kw = PROJ[kind](it)
        it.pc = TRUE
        p0 = len(it.top_raises)
        v = callm(it, o, 'project', **kw)
        pc = it.pc
        out.note(it)
        out.ncases += 1
        where = out.src('Response.project')
        if v is None or pc is FALSE:
            out.bad('C21.projects', kind, 'never returns: %s' % [(x['exc'].name, x['where']) for x in it.top_raises[p0:]][:2], where)
            return
        multi = kind in ('wave,flux 2-D', 'sed', 'template', 'sed without interpolator')
        if kind.startswith('wave'):
            sw = kw['wave']
            sf = merged(it, kw['flux'])
        else:
            at = sed_attrs(it, kw['sed'])
            sw, sf = at['wave'], merged(it, at['flux'])
        if multi:
            j = fresh_ix('s')
            row = Arr(sf.axes[1:], subst(sf.at([[atomP(j)], [atomP(IX('@0'))]]), {}), sf.dt)
            m = merged(it, spec('maggies', w, r, sw, it.new(ArrCell(row))))
            n = sf.axes[0].dim
            want = from_fn([n], lambda i: subst(m.body, {j: i}), 'f4')
        else:
            row = Arr(sf.axes[-1:], sf.at([[ZERO]] * (sf.ndim - 1) + [[atomP(IX('@0'))]]), sf.dt)
            m = merged(it, spec('maggies', w, r, sw, it.new(ArrCell(row))))
            want = Arr((), m.body, 'f4')
        check(out, 'C21.projection', kind, it, v, want, pc, where)
    return f


def c21(tier):
    return [('C21 %s' % k, c21_task(k)) for k in PROJ]
