"""C17: what a saver writes, the loader reads back into the same attribute with the same contents.

Saver and loader are analysed together through an abstract file system.  The loading object is a different one, constructed with other
bands, grid, templates and settings, so that nothing can survive from its own construction unnoticed."""
from .common import *
from ..suite import *
from .. import suite

NT2, NW2, NI2, NO2, NZ2 = dim('NT2'), dim('NW2'), dim('NB2'), dim('NOUT2'), dim('NZ2')
TFILE2 = '<CWD>/other-templates.fits'
SEDATTR = ('binimage', 'restframe_wave', 'restframe_flux', 'nsed', 'nwave')
TATTR = SEDATTR + ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000')
KATTR = ('abcorrect', 'nredshift', 'redshift_range', 'redshifts', 'responses', 'responses_out', 'responses_map', 'imap', 'Amatrix', 'AmatrixOut')
RATTR = ('wave', 'response', 'nwave', 'lambda_eff', 'solar_magnitude', 'vega2ab', 'lambda_low', 'lambda_high', 'fwhm')
METHODS = (('fit_coeffs', ('redshift', 'maggies', 'ivar'), ()), ('reconstruct', ('redshift', 'coeffs', 'band_shift'), ()), ('reconstruct_out', ('redshift', 'coeffs', 'band_shift'), ()),
           ('kcorrect', ('redshift', 'coeffs', 'band_shift'), ()),
           ('absmag', ('maggies', 'ivar', 'redshift', 'coeffs', 'band_shift', 'distance'), ('reconstruct', 'limit', 'kcorrect')),
           ('derived', ('redshift', 'coeffs', 'band_shift', 'distance'), ()))


def names_of(it, v):
    """(count, position -> name term or str) of a list of band names"""
    if isinstance(v, Ref):
        c = it.heap[v.cid]
        if isinstance(c, SymListCell):
            return c.count, c.elem
        if isinstance(c, ListCell):
            return num(len(c.items)), (lambda k, c=c: c.items[int(const(k))] if const(k) is not None else None)
    if isinstance(v, Tup):
        return num(len(v.items)), (lambda k, c=v: c.items[int(const(k))] if const(k) is not None else None)
    return None


def cmp_names(it, a, b):
    x, y = names_of(it, a), names_of(it, b)
    if y is None or x is None:
        return 'is no list of names', (not isinstance(b, (Opq, Phi)) and x is not None and not is_array(it, b))
    if not eq(x[0], y[0]):
        r = cmp_body(y[0], x[0], [], [])
        if not r:
            return 'has %s elements instead of %s' % (brief(y[0], 80), brief(x[0], 80)), r.definite
    n = const(x[0])
    ks = [num(k) for k in range(int(n))] if n is not None else [atomP(fresh_ix())]
    for k in ks:
        p, q = x[1](k), y[1](k)
        tp, tq = p.t if isinstance(p, SymStr) else p, q.t if isinstance(q, SymStr) else q
        if isinstance(tp, str) or isinstance(tq, str):
            if tp != tq:
                return 'holds %r instead of %r' % (tq, tp), isinstance(tp, str) and isinstance(tq, str)
        elif tp is None or tq is None or not eq(tp, tq):
            r = cmp_body(tq, tp, [k], [x[0]]) if tp is not None and tq is not None else None
            if r is None or not r:
                return 'holds other names: %s' % (r.msg if r else '?'), bool(r is not None and r.definite)
    return None


def is_array(it, v):
    return merged(it, v) is not None


def interp_parts(it, v):
    return v if isinstance(v, Lib) and v.kind == 'interp' else None


def attr_of(it, o, k):
    try:
        return it.run(lambda: it.getattr(o, k, NODE))
    except Dead:
        return None


def compare_objects(out, rule, lab, it, a, b, attrs, where, cond=TRUE):
    """documented attributes of the saved object a against those of the loaded object b"""
    for k in attrs:
        inst = '%s .%s' % (lab, k)
        ca = it.heap[a.cid].attrs
        if k not in ca:
            nr = len(it.top_raises)
            x = attr_of(it, a, k)
            del it.top_raises[nr:]
            if x is None:
                continue
        else:
            x = ca[k]
        nr = len(it.top_raises)
        it.pc = cond
        y = attr_of(it, b, k)
        del it.top_raises[nr:]
        it.pc = cond
        if y is None and x is not None:
            out.bad(rule, inst, 'the loaded object has no attribute %s' % k, where)
            continue
        compare_one(out, rule, inst, it, x, y, where, cond)


def compare_one(out, rule, inst, it, x, y, where, cond):
    for c, xx in cases_of(it, x, cond):
        for c2, yy in cases_of(it, y, c):
            if c2 is FALSE:
                continue
            r = compare_leaf(it, xx, yy, c2)
            if r is None:
                out.ok(rule, inst, where)
            elif r[1] and not c2.opq:
                out.bad(rule, inst, 'after loading, ' + r[0], where)
            else:
                out.und(rule, inst, r[0], where)


def compare_leaf(it, x, y, c):
    if isinstance(x, Opq) or isinstance(y, Opq):
        return 'unknown value', False
    if y is UNBOUND and x is not UNBOUND:
        return 'is not set', True
    if x is y:
        return None
    if isinstance(x, Lib) and x.kind == 'interp':
        if not (isinstance(y, Lib) and y.kind == 'interp'):
            return 'is no interpolator', True
        if x.d.get('opts') != y.d.get('opts') or x.d.get('axis') != y.d.get('axis'):
            return 'interpolates with options %s, axis %s instead of %s, %s' % (y.d.get('opts'), y.d.get('axis'), x.d.get('opts'), x.d.get('axis')), True
        for p in ('x', 'y'):
            r = cmp_arr(y.d[p], x.d[p], c)
            if not r:
                return 'the %s of the table %s' % ('redshifts' if p == 'x' else 'values', r.msg), r.definite
        return None
    if names_of(it, x) is not None and not is_array(it, x):
        return cmp_names(it, x, y)
    if x is None or isinstance(x, str):
        return None if x == y else ('is %s instead of %r' % (kind_of(it, y), x), not isinstance(y, (SymStr,)))
    a = merged(it, x)
    if a is None:
        return 'cannot be compared', False
    b = merged(it, y)
    if b is not None and narrower(b.dt, a.dt):
        return 'holds numbers of kind %s instead of %s' % (b.dt, a.dt), True
    r = cmp_val(it, y, a, c)
    return None if r else (r.msg, r.definite)


def narrower(found, saved):
    if not isinstance(found, str) or not isinstance(saved, str):
        return False
    return (found[0] in 'iu' and saved[0] in 'fc') or (found[0] == 'b' and saved[0] in 'ifuc')


def rejected(out, rule, lab, it, cond, where, nr):
    """loading what was saved must not fail"""
    for r in it.top_raises[nr:]:
        c = And(r['pc'], cond)
        if c is FALSE:
            continue
        x = c
        (out.und if x.opq else out.bad)(rule, lab, 'saving and loading fails: %s at %s where %s' % (r['exc'].name, r['where'], brief(r['pc'], 150)), where)


# ---------------------------------------------------------------- K-correction objects
def other_file(it, name=TFILE2):
    rec = Lib('frec', n=num(1), fields=(
        ('wave', 'f4', (NW2,), from_fn([ONE, NW2], lambda i, j: inp('t2.wave', 'P', j), 'f4')),
        ('flux', 'f4', (NT2, NW2), from_fn([ONE, NT2, NW2], lambda i, j, k: inp('t2.flux', 'PZ', j, k), 'f4'))))
    hd = [Lib('fhdu', name='PRIMARY', type='primary', data=None), Lib('fhdu', name='FLUX', type='table', data=rec)]
    for nm in ('INTSFH', 'MREMAIN', 'METS', 'M300', 'M1000', 'M50'):
        hd.append(Lib('fhdu', name=nm, type='image', data=from_fn([NT2], lambda i, nm=nm: inp('t2.' + nm, 'PZ', i), 'f4')))
    LibModel().fs_write(it, name, tuple(hd))


def other_object(w, cls, abc, other_out):
    """an object of the same class in another configuration"""
    it = w.it
    it.pc = TRUE
    other_file(it)
    t = w.run(lambda: it.instantiate(find_class(it, 'Template'), [], {'filename': TFILE2}, NODE))
    kw = {'templates': t, 'abcorrect': boolv(abc), 'redshift_range': it.new(ListCell([sscalar('zlo2'), sscalar('zhi2')])), 'nredshift': scalar(NZ2, 'i', True),
          'responses': symlist(it, NI2, 'RESPB')}
    if other_out:
        kw['responses_out'] = symlist(it, NO2, 'ROUTB')
        kw['responses_map'] = symlist(it, NO2, 'RMAPB')
    n = len(it.top_raises)
    o = w.run(lambda: it.instantiate(w.cls, [], kw, NODE))
    if not isinstance(o, Ref):
        raise AnchorError('%s() cannot be constructed in another configuration: %s' % (cls, [r['exc'].name + ' at ' + r['where'] for r in it.top_raises[n:]][:3]))
    del it.top_raises[n:]
    it.pc = TRUE
    return o


def save_load(w, cls, how, abc, other_out, name=OUTNAME):
    """(loaded object or None, condition under which saving and loading succeeded)"""
    it = w.it
    o2 = other_object(w, cls, not abc, other_out) if how == 'other' else None
    it.pc = TRUE
    w.call('tofits', filename=name)
    pc = it.pc
    it.pc = TRUE
    if how == 'constructor':
        o2 = w.run(lambda: it.instantiate(w.cls, [], {'filename': name}, NODE))
    elif how == 'self':
        o2 = w.o
        w.call('fromfits', filename=name)
    else:
        m = w.run(lambda: it.getattr(o2, 'fromfits', NODE))
        w.run(lambda: it.call(m, [], {'filename': name}, NODE))
    pc = And(pc, it.pc)
    it.pc = TRUE
    return o2, pc


def kc_task(cls, o, how, abc, other_out, m50, tables):
    lab = '%s%s saved%s, loaded by %s' % (cls, ' with output bands' if o else '', ' (abcorrect)' if abc else '',
                                          {'constructor': 'a new object', 'other': 'an object of other configuration' + (' with output bands' if other_out else ''),
                                           'self': 'the same object'}[how])
    if m50 is not None:
        lab += ', template file with%s M50' % ('' if m50 else 'out')

    def f(out):
        where = out.src(cls + '.fromfits') or out.src('Kcorrect.fromfits')
        w = fresh(out.prog, cls, out=o, abcorrect=abc, m50=m50, tables=tables)
        it = w.it
        nr = len(it.top_raises)
        o2, pc = save_load(w, cls, how, abc, other_out)
        out.note(it)
        out.ncases += 1
        if not isinstance(o2, Ref) or pc is FALSE:
            out.bad('C17.loadable', lab, 'the saved object cannot be loaded: %s' % [r['exc'].name + ' at ' + r['where'] for r in it.top_raises[nr:]][:3], where)
            return
        rejected(out, 'C17.loadable', lab, it, w.ctor_pc, where, nr)
        out.ok('C17.loadable', lab, where)
        compare_objects(out, 'C17.kept', lab, it, w.o, o2, KATTR, where, w.ctor_pc)
        a, b = attr_of(it, w.o, 'templates'), attr_of(it, o2, 'templates')
        if not isinstance(b, Ref):
            out.bad('C17.kept', lab + ' .templates', 'the loaded object has no templates', where)
        elif isinstance(a, Ref):
            compare_objects(out, 'C17.kept', lab + ' .templates', it, a, b, TATTR, where)
    return lab, f


def results_task(cls, o, meth, names, extra, b, how):
    lab = '%s%s loaded by %s: %s[%s%s] as before saving' % (cls, ' with output bands' if o else '', 'a new object' if how == 'constructor' else 'an object of other configuration',
                                                        meth, b, ''.join(',' + x for x in extra))

    def f(out):
        where = out.src('Kcorrect.fromfits')
        w = fresh(out.prog, cls, out=o, abcorrect=False, tables='abstract', symresp=True)
        it = w.it
        o2, pc = save_load(w, cls, how, False, not o)
        out.note(it)
        out.ncases += 1
        if not isinstance(o2, Ref):
            return      # reported by C17.loadable
        bb = [x for x in BATCHES if x.kind == b][0]
        res = []
        for ob in (w.o, o2):
            w.o = ob
            kw = gal(w, bb, *names)
            for e in extra:
                kw[e] = scalar(MC, 'i', True) if e == 'mc' else boolv(True)
            nr = len(it.top_raises)
            it.pc = TRUE
            v = w.call(meth, **kw)
            res.append((v, it.pc, it.top_raises[nr:]))
        it.pc = TRUE
        (v1, p1, r1), (v2, p2, r2) = res
        same_fail(out, 'C17.results', lab, And(p1, w.ctor_pc), And(p2, w.ctor_pc), where)
        c = And(And(p1, p2), w.ctor_pc)
        if c is FALSE:
            return
        d1, d2 = whole(it, v1, c), whole(it, v2, c)
        if set(d1) != set(d2):
            out.decide('C17.results', lab, 'returns %s instead of %s' % (sorted(d2), sorted(d1)), where, c.opq or vague(it, v1, c) or vague(it, v2, c))
            return
        for p in d1:
            if d1[p] is None or isinstance(d1[p], (str, bool)):
                continue
            a = merged(it, d1[p])
            if a is None:
                out.und('C17.results', lab + p, 'cannot be compared', where)
                continue
            check(out, 'C17.results', lab + p, it, d2[p], a, c, where)
    return lab, f


def same_fail(out, rule, lab, p1, p2, where):
    if p1 is p2:
        out.ok(rule, lab + ' (succeeds alike)', where)
        return
    r = cmp_body(b2n(p1), b2n(p2), [], [])
    if r:
        out.ok(rule, lab + ' (succeeds alike)', where)
    else:
        (out.bad if r.definite else out.und)(rule, lab + ' (succeeds alike)', 'fails in other situations: ' + r.msg, where)


# ---------------------------------------------------------------- spectra, template sets, responses
def sed_task(cls, how, flux2d, m50, binimage, shifted):
    lab = '%s saved%s%s%s%s, loaded by %s' % (cls, ' (1-D flux)' if not flux2d else '', ' (binary images)' if binimage else '', ' after a shift' if shifted else '',
                                           '' if m50 is None else ' from a file with%s M50' % ('' if m50 else 'out'), {'constructor': 'a new object', 'other': 'another object'}[how])

    def f(out):
        where = out.src('SED.fromfits')
        it = free_world(out.prog, m50=m50)
        o = make_sed(it, cls, None, flux2d)[0]
        if binimage:
            run(it, lambda: it.setattr(o, 'binimage', boolv(True), NODE))
        if shifted:
            callm(it, o, 'set_redshift', redshift=sscalar('z1', 'PZ'))
        it.pc = TRUE
        o2 = None
        if how == 'other':
            if cls == 'Template':
                other_file(it)
                o2 = run(it, lambda: it.instantiate(find_class(it, cls), [], {'filename': TFILE2}, NODE))
            else:
                o2 = run(it, lambda: it.instantiate(find_class(it, cls), [], {'wave': symarr(it, 'wave2', [NW2], 'P'), 'flux': symarr(it, 'flux2', [NT2, NW2], 'PZ')}, NODE))
            if binimage is False:
                run(it, lambda: it.setattr(o2, 'binimage', boolv(True), NODE))
        nr = len(it.top_raises)
        it.pc = TRUE
        callm(it, o, 'tofits', filename=OUTNAME)
        it.pc = TRUE
        if how == 'constructor':
            o2 = run(it, lambda: it.instantiate(find_class(it, cls), [], {'filename': OUTNAME}, NODE))
        else:
            callm(it, o2, 'fromfits', filename=OUTNAME)
        pc = it.pc
        it.pc = TRUE
        out.note(it)
        out.ncases += 1
        if not isinstance(o2, Ref) or pc is FALSE:
            out.bad('C17.loadable', lab, 'the saved object cannot be loaded: %s' % [r['exc'].name + ' at ' + r['where'] for r in it.top_raises[nr:]][:3], where)
            return
        rejected(out, 'C17.loadable', lab, it, TRUE, where, nr)
        out.ok('C17.loadable', lab, where)
        attrs = TATTR if cls == 'Template' and how == 'constructor' else SEDATTR
        compare_objects(out, 'C17.kept', lab, it, o, o2, attrs, where)
        # the loaded spectrum is in its rest frame
        for k, rest in (('wave', 'restframe_wave'), ('flux', 'restframe_flux')):
            x, y = attr_of(it, o, rest), attr_of(it, o2, k)
            if y is None:
                out.bad('C17.kept', '%s .%s' % (lab, k), 'the loaded object has no attribute ' + k, where)
            else:
                compare_one(out, 'C17.kept', '%s .%s' % (lab, k), it, x, y, where, TRUE)
    return lab, f


def resp_task(how, loader):
    lab = 'Response (%s) saved, loaded by %s' % (how, {'none': 'an empty response', 'arrays': 'another response', 'dat': 'a response read from text'}[loader])

    def f(out):
        where = out.src('Response.fromfits')
        it = resp_world(out.prog)
        o = make_resp(it, how)
        it.pc = TRUE
        if loader == 'arrays':
            o2 = run(it, lambda: it.instantiate(find_class(it, 'Response'), [], {'wave': symarr(it, 'r2wave', [dim('NR2')], 'P'),
                                                                                 'response': symarr(it, 'r2resp', [dim('NR2')], 'PZ')}, NODE))
        elif loader == 'dat':
            o2 = run(it, lambda: it.instantiate(find_class(it, 'Response'), [], {'filename': '<CWD>/other.dat'}, NODE))
        else:
            o2 = run(it, lambda: it.instantiate(find_class(it, 'Response'), [], {}, NODE))
        nr = len(it.top_raises)
        it.pc = TRUE
        callm(it, o, 'tofits', filename=OUTNAME)
        it.pc = TRUE
        callm(it, o2, 'fromfits', filename=OUTNAME)
        pc = it.pc
        it.pc = TRUE
        out.note(it)
        out.ncases += 1
        if pc is FALSE:
            out.bad('C17.loadable', lab, 'the saved object cannot be loaded: %s' % [r['exc'].name + ' at ' + r['where'] for r in it.top_raises[nr:]][:3], where)
            return
        out.ok('C17.loadable', lab, where)
        compare_objects(out, 'C17.kept', lab, it, o, o2, RATTR, where)
    return lab, f


# ---------------------------------------------------------------- the documented file layout
TABLES = {'INTSFH': 'intsfh', 'MREMAIN': 'mremain', 'METS': 'mets', 'M50': 'm50', 'M300': 'm300', 'M1000': 'm1000'}
KTABLES = {'REDSHIFTS': ('redshifts', None), 'RESPONSES': ('responses', 'responses'), 'RESPONSES_OUT': ('responses_out', 'responses_out'),
           'RESPONSES_MAP': ('responses_map', 'responses_map')}


def hdus_of(it, name):
    f = LibModel().fs_read(it, name)
    if f is None:
        return None
    d = {}
    for h in f.d['hdus']:
        if isinstance(h, CondItem):
            h = h.v
        if isinstance(h, Lib) and h.kind == 'fhdu':
            d.setdefault(h.d['name'], h.d['data'])
    return d


def column(d, k):
    if isinstance(d, Lib) and d.kind == 'frec':
        for f in d.d['fields']:
            if str(f[0]) == k:
                return f[3]
    return None


def hold(out, lab, it, found, want, where, what):
    inst = '%s: %s' % (lab, what)
    if found is None:
        out.bad('C17.layout', inst, 'the file has no %s' % what, where)
        return
    if not isinstance(found, Arr):
        out.und('C17.layout', inst, 'unknown contents', where)
        return
    names = names_of(it, want) if not is_array(it, want) or isinstance(it.heap.get(getattr(want, 'cid', None)), (ListCell, SymListCell)) else None
    if names is not None and found.dt == 's':
        n, e = names
        a = found
        if a.ndim != 1 or not cmp_body(a.axes[0].dim, n, [], []):
            out.bad('C17.layout', inst, 'has the wrong number of rows', where)
            return
        k = const(n)
        for v in ([num(i) for i in range(int(k))] if k is not None else [atomP(fresh_ix())]):
            x = e(v)
            tx = it.keyterm(x)
            if not eq(a.at1(v), tx):
                out.bad('C17.layout', inst, 'holds %s instead of %s' % (brief(a.at1(v), 60), brief(tx, 60)), where)
                return
        out.ok('C17.layout', inst, where)
        return
    w = merged(it, want)
    if w is None:
        out.und('C17.layout', inst, 'cannot be compared', where)
        return
    if found.ndim == w.ndim + 1 and const(found.axes[0].dim) == 1:
        found = getitem(found, [('int', ZERO), ('ell',)])
    if narrower(found.dt, w.dt):
        out.bad('C17.layout', inst, 'holds numbers of kind %s instead of %s' % (found.dt, w.dt), where)
        return
    for c, x in cases_of(it, want, TRUE):
        r = cmp_arr(found, merged(it, x), c)
        if not r:
            (out.bad if r.definite and not c.opq else out.und)('C17.layout', inst, r.msg, where)
            return
    out.ok('C17.layout', inst, where)


def layout_sed(out, lab, it, o, d, where, binimage, template):
    g = lambda k: attr_of(it, o, k)
    if binimage:
        hold(out, lab, it, d.get('WAVE'), g('restframe_wave'), where, 'image WAVE')
        hold(out, lab, it, d.get('FLUX'), g('restframe_flux'), where, 'image FLUX')
    else:
        hold(out, lab, it, column(d.get('FLUX'), 'wave'), g('restframe_wave'), where, 'column wave of table FLUX')
        hold(out, lab, it, column(d.get('FLUX'), 'flux'), g('restframe_flux'), where, 'column flux of table FLUX')
    if template:
        for h, a in TABLES.items():
            hold(out, lab, it, d.get(h), g(a), where, 'image ' + h)


def layout_task(cls, binimage):
    lab = 'file of a %s%s' % (cls, ' with binary images' if binimage else '')

    def f(out):
        where = out.src(cls + '.tofits')
        it = free_world(out.prog)
        o = make_sed(it, cls)[0]
        if binimage:
            run(it, lambda: it.setattr(o, 'binimage', boolv(True), NODE))
        callm(it, o, 'set_redshift', redshift=sscalar('z1', 'PZ'))
        it.pc = TRUE
        callm(it, o, 'tofits', filename=OUTNAME)
        it.pc = TRUE
        out.note(it)
        out.ncases += 1
        d = hdus_of(it, OUTNAME)
        if d is None:
            out.bad('C17.layout', lab, 'no file is written', where)
            return
        layout_sed(out, lab, it, o, d, where, binimage, cls == 'Template')
    return lab, f


def read_task(m50):
    lab = 'template file in the documented layout%s' % ('' if m50 is None else ' with%s M50' % ('' if m50 else 'out'))

    def f(out):
        where = out.src('Template.__init__')
        it = free_world(out.prog, m50=m50)
        o = make_sed(it, 'Template')[0]
        out.note(it)
        out.ncases += 1
        for h, a in TABLES.items():
            x = attr_of(it, o, a)
            it.pc = TRUE
            if x is None:
                out.bad('C17.layout', '%s: %s' % (lab, a), 'the loaded set has no attribute ' + a, where)
                continue
            if a == 'm50' and m50 is not True:
                if m50 is None:
                    continue
                spec = from_fn([NT], lambda i: ZERO, 'f4')
            else:
                spec = from_fn([NT], lambda i, h=h: inp('tfile.' + h, 'PZ', i), 'f4')
            check(out, 'C17.layout', '%s: %s' % (lab, a), it, x, spec, TRUE, where)
        check(out, 'C17.layout', lab + ': restframe_wave', it, attr_of(it, o, 'restframe_wave'), from_fn([NW], lambda i: inp('tfile.wave', 'P', i), 'f4'), TRUE, where)
        check(out, 'C17.layout', lab + ': restframe_flux', it, attr_of(it, o, 'restframe_flux'), from_fn([NT, NW], lambda j, k: inp('tfile.flux', 'PZ', j, k), 'f4'), TRUE, where)
    return lab, f


def layout_kc(cls, o, abc):
    lab = 'file of a %s%s%s' % (cls, ' with output bands' if o else '', ' (abcorrect)' if abc else '')

    def f(out):
        where = out.src('Kcorrect.tofits')
        w = fresh(out.prog, cls, out=o, abcorrect=abc, tables='abstract')
        it = w.it
        w.call('tofits', filename=OUTNAME)
        it.pc = TRUE
        out.note(it)
        out.ncases += 1
        d = hdus_of(it, OUTNAME)
        if d is None:
            out.bad('C17.layout', lab, 'no file is written', where)
            return
        g = lambda k: attr_of(it, w.o, k)
        t = g('templates')
        layout_sed(out, lab, it, t, d, where, False, True)
        for k in ('nredshift', 'redshift_range', 'abcorrect'):
            hold(out, lab, it, column(d.get('DATA'), k), g(k), where, 'column %s of table DATA' % k)
        for h, (a, c) in KTABLES.items():
            x = d.get(h)
            hold(out, lab, it, column(x, c) if c else x, g(a), where, '%s %s' % ('table' if c else 'image', h))
        for h, a in (('A', 'Amatrix'), ('AOUT', 'AmatrixOut')):
            m = g(a)
            if not (isinstance(m, Lib) and m.kind == 'interp'):
                continue
            it.pc = TRUE
            hold(out, lab, it, d.get(h), it.mkarr(m.d['y']), where, 'image ' + h)
    return lab, f


def c17(tier):
    t = []
    for cls, bi in (('SED', False), ('SED', True), ('Template', False), ('Template', True)):
        t.append(layout_task(cls, bi))
    for m in (None, True, False):
        t.append(read_task(m))
    for cls in ('Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
        for o in (None, True):
            t.append(layout_kc(cls, o, o is None))
    for cls in ('Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
        for o in (None, True):
            for abc in (False, True):
                if cls == 'Kcorrect':
                    t.append(kc_task(cls, o, 'constructor', abc, False, None, 'real'))
                t.append(kc_task(cls, o, 'other', abc, not o, None, 'real'))
                if tier == 'thorough':
                    t.append(kc_task(cls, o, 'other', abc, bool(o), None, 'real'))
                    t.append(kc_task(cls, o, 'other', abc, not o, True, 'real'))
                    t.append(kc_task(cls, o, 'other', abc, not o, False, 'real'))
            for m, names, extra in METHODS:
                for b in ('many',) if tier == 'quick' else ('scalar', 'one', 'many'):
                    for how in (('constructor', 'other') if tier == 'thorough' else ('constructor',)) if cls == 'Kcorrect' else ('other',):
                        t.append(results_task(cls, o, m, names, extra, b, how))
    for cls in ('SED', 'Template'):
        for how in ('constructor', 'other'):
            for f2 in (True, False) if cls == 'SED' else (True,):
                for m50 in (None,) if cls == 'SED' else (None, True, False):
                    for bi in (False, True):
                        for sh in (False, True):
                            t.append(sed_task(cls, how, f2, m50, bi, sh))
    for how in ('arrays', 'dat', 'intwave', 'intresp', 'double'):
        for l in ('none', 'arrays', 'dat') if how in ('arrays', 'dat') else ('none',):
            t.append(resp_task(how, l))
    return t
