"""Redshifting of spectra (C13) and the tables of model fluxes (C14)."""
from .common import *
from ..suite import Case, fresh, free_world, make_sed, callm, run

# ---------------------------------------------------------------- C13
#  name: list of calls ('z', input name) or ('m', method)
SEQUENCES = {
    'z1': [('z', 'z1')],
    'z1,z2': [('z', 'z1'), ('z', 'z2')],
    'z1,z2,z3': [('z', 'z1'), ('z', 'z2'), ('z', 'z3')],
    'z1,z1': [('z', 'z1'), ('z', 'z1')],
    'z1,zero': [('z', 'z1'), ('z', None)],
    'zero,z1': [('z', None), ('z', 'z1')],
    'interp,z1': [('m', 'set_interp'), ('z', 'z1')],
    'z1,interp,z2': [('z', 'z1'), ('m', 'set_interp'), ('z', 'z2')],
    'z1,interp': [('z', 'z1'), ('m', 'set_interp')],
    'z1,save,z2': [('z', 'z1'), ('save', 'tofits'), ('z', 'z2')],
    'z1,reload': [('z', 'z1'), ('save', 'tofits'), ('load', 'fromfits')],
    'z1,reload,z2': [('z', 'z1'), ('save', 'tofits'), ('load', 'fromfits'), ('z', 'z2')],
    'z1,plot': [('z', 'z1'), ('m', 'plot')],
}
OBJECTS = []
for _ip in (None, False, True):
    for _c, _2d in (('SED', True), ('SED', False), ('Template', True)):
        OBJECTS.append((_c, _ip, _2d))


def oname(cls, ip, d2):
    return '%s(%s%s)' % (cls, {None: 'default', False: 'interpolate=False', True: 'interpolate=True'}[ip], '' if d2 else ',1-D flux')


def zterm(name):
    return ZERO if name is None else inp(PREFIX[0] + name, FIN)


def sed_attrs(it, o):
    c = it.heap[o.cid]
    return dict(c.attrs) if isinstance(c, InstCell) else {}


def orig_grid(it, o):
    at = sed_attrs(it, o)
    return merged(it, at.get('restframe_wave')), merged(it, at.get('restframe_flux'))


def c13_task(obj, seq):
    cls, ip, d2 = obj

    def f(out):
        it = free_world(out.prog)
        o, kw = make_sed(it, cls, ip, d2)
        it.pc = TRUE
        w0, f0 = orig_grid(it, o)
        lab = '%s %s' % (oname(*obj), seq)
        where = out.src(cls + '.set_redshift')
        if w0 is None or f0 is None:
            out.und('C13.restframe', lab, 'the rest-frame grid is not an array')
            return
        if cls == 'SED' and not d2:
            want = from_fn([ONE, NW], lambda i, j: inp('flux', 'PZ', j), 'f4')
        elif cls == 'SED':
            want = from_fn([NT, NW], lambda i, j: inp('flux', 'PZ', i, j), 'f4')
        else:
            want = from_fn([NT, NW], lambda i, j: inp('tfile.flux', 'PZ', i, j), 'f4')
        wave = from_fn([NW], lambda i: inp('wave' if cls == 'SED' else 'tfile.wave', 'P', i), 'f4')
        z = ZERO
        n0 = len(it.top_raises)
        steps = SEQUENCES[seq]
        for kind, a in steps:
            if kind == 'z':
                z = zterm(a)
                callm(it, o, 'set_redshift', redshift=scalar(z, 'f8', True))
            elif kind == 'm':
                callm(it, o, a)
            elif kind == 'save':
                callm(it, o, 'tofits', filename='<CWD>/out.fits')
            else:
                callm(it, o, 'fromfits', filename='<CWD>/out.fits')
                z = ZERO
            if it.pc is FALSE:
                rs = it.top_raises[n0:]
                out.bad('C13.sequence', lab, '%s never returns: %s' % (a, '; '.join('%s at %s' % (r['exc'].name, r['where']) for r in rs[:2])), where)
                return
        out.ncases += 1
        out.note(it)
        pc = it.pc
        at = sed_attrs(it, o)
        one = add(ONE, z)
        check(out, 'C13.restframe-unchanged', lab + ' wave', it, at.get('restframe_wave'), wave, pc, where)
        check(out, 'C13.restframe-unchanged', lab + ' flux', it, at.get('restframe_flux'), want, pc, where)
        sw = Arr(wave.axes, mul(wave.body, one), 'f4')
        sf = Arr(want.axes, div(want.body, one), 'f4')
        check(out, 'C13.wave', lab, it, at.get('wave'), sw, pc, where)
        check(out, 'C13.flux', lab, it, at.get('flux'), sf, pc, where)
        check(out, 'C13.redshift', lab, it, at.get('redshift'), scalar(z), pc, where)
        interp_current(out, 'C13.interpolator-current', lab, it, at.get('interp'), sw, sf, pc, where)
    return f


def interp_current(out, rule, lab, it, v, sw, sf, pc, where, axis=-1):
    for c, x in cases_of(it, v, pc):
        if x is None:
            out.ok(rule, lab + ' (none)', where)
        elif isinstance(x, Lib) and x.kind == 'interp':
            ax = x.d.get('axis')
            r = cmp_arr(x.d['x'], sw, c)
            if r:
                r = cmp_arr(x.d['y'], sf, c)
                if not r:
                    r = Verdict('fluxes of the interpolator: ' + r.msg, r.definite)
            else:
                r = Verdict('wavelengths of the interpolator: ' + r.msg, r.definite)
            out.decide(rule, lab, r.msg, where, not r.definite or c.opq)
        else:
            out.decide(rule, lab, 'is %s' % kind_of(it, x), where, isinstance(x, Opq) or c.opq)


def c13_project(tag):
    """projection uses the spectrum at its current redshift"""
    def f(out):
        it = free_world(out.prog)
        o, kw = make_sed(it, 'SED', True, True)
        where = out.src('SED.set_redshift')
        callm(it, o, 'set_redshift', redshift=sscalar('z1'))
        callm(it, o, 'set_redshift', redshift=sscalar('z2'))
        out.ncases += 1
        out.note(it)
        ms = [sed_attrs(it, o).get(a) for a in ('wave', 'interp')]
        for c, x in cases_of(it, ms[1], it.pc):
            if x is None:
                out.bad('C13.interpolator-kept', 'SED(interpolate=True)', 'no interpolator after setting a redshift', where)
            else:
                out.decide('C13.interpolator-kept', 'SED(interpolate=True)', None if isinstance(x, Lib) and x.kind == 'interp' else 'is %s' % kind_of(it, x), where, isinstance(x, Opq))
    return f


def c13(tier):
    t = []
    for o in OBJECTS:
        for s in SEQUENCES:
            if o[0] == 'Template' and 'reload' in s:
                continue
            t.append(('%s %s' % (oname(*o), s), c13_task(o, s)))
    t.append(('kept', c13_project('')))
    return t


# ---------------------------------------------------------------- C14
def table_spec(it, names, n, wave, flux, nt, zs):
    """[NZ, bands, templates] projections of the redshifted templates"""
    lib = it.libmodel if hasattr(it, 'libmodel') else it.lib

    def term(i, b, t):
        one = add(ONE, zs(i))
        v = fresh_ix()
        lamw = mklam([v], mul(wave(atomP(v)), one))
        lamy = mklam([v], div(flux(t, atomP(v)), one))
        return mk('project', names(b), NW, lamy, lamw, lamw)
    return from_fn([NZ, n, nt], term, 'f4')


def check_table(out, rule, inst, it, v, spec, grid, pc, where):
    for c, x in cases_of(it, v, pc):
        if isinstance(x, Lib) and x.kind == 'interp':
            r = cmp_arr(x.d['x'], grid, c)
            out.decide(rule + '-grid', inst, r.msg, where, not r.definite or c.opq)
            out.decide(rule + '-axis', inst, None if x.d['axis'] == 0 else 'interpolates along axis %s' % x.d['axis'], where, c.opq)
            r = cmp_arr(x.d['y'], spec, c)
            out.decide(rule, inst, r.msg, where, not r.definite or c.opq)
        else:
            out.decide(rule, inst, 'is %s' % kind_of(it, x), where, isinstance(x, Opq) or c.opq or (x is not None and not isinstance(x, (Arr, Ref))))


def zgrid(i):
    return add(inp('zlo', FIN), div(mul(sub(inp('zhi', FIN), inp('zlo', FIN)), i), sub(NZ, ONE)))


def symn(name):
    return lambda b: symname(name, b)


def c14_task(cls, label, out_=None, **ctor):
    def f(out):
        kw = {k: v for k, v in ctor.items() if not k.startswith('_')}
        where = out.src('Fitter._calc_Amatrix') if True else ''
        w = World(out.prog, cls, out=out_, abcorrect=False, symresp=cls in ('KcorrectSDSS', 'KcorrectGST'), **kw)
        it = w.it
        out.ncases += 1
        out.note(it)
        pc = w.ctor_pc
        it.pc = TRUE
        grid = from_fn([NZ], zgrid, 'f4')
        wave = lambda j: inp('tfile.wave', 'P', j)
        flux = lambda t, j: inp('tfile.flux', 'PZ', t, j)
        finish_c14(out, w, label, pc, grid, wave, flux, NT, NI, NO if out_ else NI, 'RESP', 'RESPOUT' if out_ else 'RESP', 'RESPMAP' if out_ else None, where)
    return f


def finish_c14(out, w, label, pc, grid, wave, flux, nt, ni, no, rin, rout, rmap, where):
    it = w.it
    v = w.attr('redshifts')
    check(out, 'C14.redshift-grid', label, it, v, grid, pc, out.src('Fitter.__init__'))
    check_table(out, 'C14.input-table', label, it, w.attr('Amatrix'), table_spec(it, symn(rin), ni, wave, flux, nt, zgrid), grid, pc, where)
    if w.clsname != 'Fitter':
        check_table(out, 'C14.output-table', label, it, w.attr('AmatrixOut'), table_spec(it, symn(rout), no, wave, flux, nt, zgrid), grid, pc, where)
        kw = out.src('Kcorrect.__init__')
        v = w.attr('imap')
        if rmap is None and rout == rin:
            names = symn(rin)
        else:
            names = symn(rmap or rin)
        spec = from_fn([no], lambda q: index_of(symn(rin), ni, names(q)), 'i')
        check(out, 'C14.band-map', label, it, v, spec, pc, kw)
    t = w.attr('templates')
    if isinstance(t, Ref) and isinstance(it.heap[t.cid], InstCell):
        at = sed_attrs(it, t)
        check(out, 'C14.templates-at-rest', label + ' redshift', it, at.get('redshift'), scalar(ZERO), pc, where)
        check(out, 'C14.templates-at-rest', label + ' wave', it, at.get('wave'), from_fn([NW], wave, 'f4'), pc, where)
        check(out, 'C14.templates-at-rest', label + ' flux', it, at.get('flux'), from_fn([nt, NW], flux, 'f4'), pc, where)
    else:
        out.und('C14.templates-at-rest', label, 'templates is not an object')


def index_of(names, n, x):
    v = fresh_ix()
    return mk('index', n, mklam([v], names(atomP(v))), x) if INDEX_HAS_DIM else mk('index', mklam([v], names(atomP(v))), x)


INDEX_HAS_DIM = False


def c14_user(label, cls, ip, d2, z0, kcls='Kcorrect'):
    """templates given by the caller, possibly at another redshift"""
    def f(out):
        it0 = free_world(out.prog)
        w = World.__new__(World)
        w.it = it = it0
        w.prog, w.clsname = out.prog, kcls
        o, kw = make_sed(it, cls, ip, d2)
        if z0:
            callm(it, o, 'set_redshift', redshift=sscalar('z1'))
        it.pc = TRUE
        kw = {'templates': o, 'responses': symlist(it, NI, 'RESP'), 'redshift_range': it.new(ListCell([sscalar('zlo'), sscalar('zhi')])), 'nredshift': scalar(NZ, 'i', True)}
        w.cls = find_class(it, kcls)
        w.o = run(it, lambda: it.instantiate(w.cls, [], kw, NODE))
        out.ncases += 1
        out.note(it)
        where = out.src('Fitter._calc_Amatrix')
        if not isinstance(w.o, Ref):
            out.bad('C14.constructed', label, 'cannot be constructed: %s' % '; '.join('%s at %s' % (r['exc'].name, r['where']) for r in it.top_raises[:2]), where)
            return
        pc = it.pc
        it.pc = TRUE
        tf = cls == 'Template'
        nt = NT if d2 else ONE
        wave = lambda j: inp('tfile.wave' if tf else 'wave', 'P', j)
        flux = (lambda t, j: inp('tfile.flux', 'PZ', t, j)) if tf else ((lambda t, j: inp('flux', 'PZ', t, j)) if d2 else (lambda t, j: inp('flux', 'PZ', j)))
        grid = from_fn([NZ], zgrid, 'f4')
        finish_c14(out, w, label, pc, grid, wave, flux, nt, NI, NI, 'RESP', 'RESP', None, where)
    return f


def c14(tier):
    t = []
    for cls in ('Fitter', 'Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
        for o in (None, True):
            if cls == 'Fitter' and o:
                continue
            lab = cls + ('+out' if o else '')
            t.append((lab, c14_task(cls, lab, o)))
    for ip in (False, True):
        lab = 'Kcorrect(interpolate_templates=%s)' % ip
        t.append((lab, c14_task('Kcorrect', lab, True, interpolate_templates=boolv(ip))))
    for cls in ('SED', 'Template'):
        for ip in (False, True):
            for d2 in (True, False) if cls == 'SED' else (True,):
                for z0 in (False, True):
                    lab = 'Kcorrect(templates=%s%s)' % (oname(cls, ip, d2), ' at z1' if z0 else '')
                    t.append((lab, c14_user(lab, cls, ip, d2, z0)))
    for kcls in ('KcorrectSDSS', 'KcorrectGST'):
        for cls in ('SED', 'Template'):
            lab = '%s(templates=%s)' % (kcls, oname(cls, False, True))
            t.append((lab, c14_user(lab, cls, False, True, True, kcls)))
    return t
