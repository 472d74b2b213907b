"""Value properties of the calculations: C08, C09, C10, C11, C12, C32."""
from .common import *

KC = ('Kcorrect', 'KcorrectSDSS', 'KcorrectGST')


def label(cls, out, meth, b, tag):
    return '%s%s.%s[%s%s]' % (cls, '+out' if out else '', meth, b, (',' + tag) if tag else '')


def _spec(c):
    return Spec(c.world, batch_of(c.name))


# ---------------------------------------------------------------- C32 reconstructed fluxes
def c32_task(lab):
    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C32.value', c, where):
            return
        sp = _spec(c)
        if '.reconstruct_out[' in lab:
            spec = sp.arr1(lambda g, q: sp.flux_out(g, q, z=sp.zin(g), bs=sp.bs), sp.nout)
        else:
            spec = sp.arr1(lambda g, q: sp.flux_in(g, q, bs=sp.bs), sp.nin)
        check(out, 'C32.weighted-sum', lab, c.it, c.result, spec, c.pc, where)
    return f


# ---------------------------------------------------------------- C09 K-corrections
def c09_task(lab):
    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C09.value', c, where):
            return
        sp = _spec(c)
        check(out, 'C09.ratio', lab, c.it, c.result, sp.arr1(sp.K, sp.nout), c.pc, where)
    return f


# ---------------------------------------------------------------- C08 absolute magnitudes
def own_parts(out, cls, o, b, var=''):
    """K-corrections and rest-frame output fluxes as the object itself computes them"""
    kcls = cls
    ck, k = own(out, label(kcls, o, 'kcorrect', b, 'bs') + var)
    if ck is None:
        ck, k = own(out, label('Kcorrect', o, 'kcorrect', b, 'bs') + var)
    cr, r = own(out, label(kcls, o, 'reconstruct_out', b, 'bs') + var)
    if cr is None:
        cr, r = own(out, label('Kcorrect', o, 'reconstruct_out', b, 'bs') + var)
    if r is not None:
        # at redshift zero
        r = arr_map(r, lambda t: sub_in(t, lambda n, fl, ix: ZERO if n == 'z' else None))
    return k, r


def c08_task(cls, o, b, tag, var=''):
    lab = label(cls, o, 'absmag', b, tag) + var

    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C08.value', c, where):
            return
        sp = _spec(c)
        sp.dist = 'dist' in tag
        k, r = own_parts(out, cls, o, b, var)
        if k is None or r is None:
            out.und('C08.value', lab, 'own K-correction or reconstruction is not an array')
            return
        ng = 0 if sp.b.n is None else 1
        sp.K = lambda g, q: k.at1(*(list(g) + [q]))
        sp.flux_out = lambda g, q, z=None, bs=None: r.at1(*(list(g) + [q]))
        n = 4 if 'all' in tag else 1
        specs = [('magnitude', sp.arr1(sp.absmag, sp.nout)), ('reconstructed magnitude', sp.arr1(sp.rmag, sp.nout)),
                 ('limit', sp.arr1(sp.limit, sp.nout)), ('K-correction returned', sp.arr1(lambda g, q: sp.K(g, q), sp.nout))]
        for j in range(n):
            v = nth(out, 'C08.results', lab, where, c.it, c.result, n, j, c.pc)
            if v is None:
                return
            check(out, 'C08.' + specs[j][0].replace(' ', '-'), '%s %s' % (lab, specs[j][0]), c.it, v, specs[j][1], c.pc, where)
    return f


def c08_flags_task(o, b):
    """every combination of the requested extras returns the same values, in the documented order"""
    def f(out):
        lab0 = label('Kcorrect', o, 'absmag', b, 'ab,all')
        c0 = out.case(lab0)
        if c0 is None or c0.result is None:
            return
        where = out.src('Kcorrect.absmag')
        full = [nth(out, 'C08.results', lab0, where, c0.it, c0.result, 4, j, c0.pc) for j in range(4)]
        if any(v is None for v in full):
            return
        full = [merged(c0.it, v) for v in full]
        for m in range(8):
            flags = dict(reconstruct=boolv(bool(m & 1)), limit=boolv(bool(m & 2)), kcorrect=boolv(bool(m & 4)))
            inst = 'absmag(%s) [%s%s]' % (','.join(k for k in sorted(flags) if flags[k].body is TRUE) or 'no extras', b, '+out' if o else '')
            bb = [x for x in BATCHES if x.kind == b][0]

            def build(w):
                d = suite.gal(w, bb, 'maggies', 'ivar', 'redshift', 'coeffs', 'band_shift')
                d.update(flags)
                return d
            c = suite.method_case(out.prog, 'Kcorrect', 'absmag', build, inst, dict(out=o, abcorrect=True))
            out.ncases += 1
            out.note(c.it)
            if lost(out, 'C08.flags', c, where):
                continue
            want = [0] + [j + 1 for j in range(3) if m >> j & 1]
            for pos, j in enumerate(want):
                v = nth(out, 'C08.flags', inst, where, c.it, c.result, len(want), pos, c.pc)
                if v is None:
                    break
                if full[j] is None:
                    continue
                check(out, 'C08.flags', '%s value %d' % (inst, pos), c.it, v, full[j], c.pc, where)
    return f


def c08_mc_flags_task(o, b):
    def f(out):
        lab0 = label('Kcorrect', o, 'absmag_mc', b, 'dist,all')
        c0 = out.case(lab0)
        if c0 is None or c0.result is None:
            return
        where = out.src('Kcorrect.absmag_mc')
        full = [nth(out, 'C08.results', lab0, where, c0.it, c0.result, 3, j, c0.pc) for j in range(3)]
        if any(v is None for v in full):
            return
        full = [merged(c0.it, v) for v in full]
        for m in range(4):
            flags = dict(reconstruct=boolv(bool(m & 1)), kcorrect=boolv(bool(m & 2)))
            inst = 'absmag_mc(%s) [%s%s]' % (','.join(k for k in sorted(flags) if flags[k].body is TRUE) or 'no extras', b, '+out' if o else '')
            bb = [x for x in BATCHES if x.kind == b][0]

            def build(w):
                d = suite.gal(w, bb, 'maggies_mc', 'ivar', 'redshift', 'coeffs_mc', 'band_shift', 'distance')
                d.update(flags)
                return d
            c = suite.method_case(out.prog, 'Kcorrect', 'absmag_mc', build, inst, dict(out=o, abcorrect=True))
            out.ncases += 1
            out.note(c.it)
            if lost(out, 'C08.flags', c, where):
                continue
            want = [0] + [j + 1 for j in range(2) if m >> j & 1]
            for pos, j in enumerate(want):
                v = nth(out, 'C08.flags', inst, where, c.it, c.result, len(want), pos, c.pc)
                if v is None:
                    break
                if full[j] is None:
                    continue
                check(out, 'C08.flags', '%s value %d' % (inst, pos), c.it, v, full[j], c.pc, where)
    return f


# ---------------------------------------------------------------- C12 derived quantities
DKEYS = ('mremain', 'intsfh', 'mtol', 'b50', 'b300', 'b1000', 'metallicity')


def c12_task(cls, o, b, tag, var=''):
    lab = label(cls, o, 'derived', b, tag) + var

    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C12.value', c, where):
            return
        sp = _spec(c)
        sp.dist = 'dist' in tag
        k, r = own_parts(out, cls, o, b, var)
        if r is not None:
            sp.flux_out = lambda g, q, z=None, bs=None: r.at1(*(list(g) + [q]))
        d = dict_vals(c.it, c.result, DKEYS, c.pc)
        if d is None:
            out.bad('C12.result', lab, 'the result is not a dictionary', where)
            return
        for key in DKEYS:
            spec = sp.arr1((lambda g, q: sp.derived('mtol', g, q)) if key == 'mtol' else (lambda g: sp.derived(key, g)),
                           sp.nout if key == 'mtol' else None)
            check(out, 'C12.' + key, '%s %s' % (lab, key), c.it, d[key], spec, c.pc, where)
    return f


# ---------------------------------------------------------------- C10 distances
def to_tenpc(t):
    """explicit distance of 10 pc"""
    return sub_in(t, lambda n, fl, ix: num(Fr(1, 100000)) if n == 'dist' else None)


def dl_to_dist(t):
    """cosmological distance replaced by the given one (same galaxy)"""
    def g(a):
        if a.op == 'DL':
            z = a.args[1]
            za = single_atom(z) if isinstance(z, P) else None
            if za is not None and za.op == 'in' and za.args[0] == 'z':
                return inp('dist', 'P', *za.args[2:])
        return None
    return map_atoms(t, g)


def values_of(out, rule, c, where):
    """[(name, Arr)] of a result"""
    it = c.it
    if '.derived' in c.name:
        d = dict_vals(it, c.result, DKEYS, c.pc)
        if d is None:
            out.bad(rule, c.name, 'the result is not a dictionary', where)
            return None
        return [(k, merged(it, d[k]), d[k]) for k in DKEYS]
    n = (4 if '.absmag[' in c.name else 3) if 'all' in c.name else 1
    names = ('magnitude', 'reconstructed', 'limit', 'kcorrect') if n != 3 else ('magnitude', 'reconstructed', 'kcorrect')
    res = []
    for j in range(n):
        v = nth(out, rule, c.name, where, it, c.result, n, j, c.pc)
        if v is None:
            return None
        res.append((names[j], merged(it, v), v))
    return res


def c10_task(cls, o, meth, b):
    mc = meth.endswith('_mc')
    if meth.startswith('absmag'):
        tag1, tag0 = 'dist,all', ('' if mc else 'ab,all')
    else:
        tag1, tag0 = 'dist', ''
    lab1, lab0 = label(cls, o, meth, b, tag1), label(cls, o, meth, b, tag0)

    def f(out):
        c1, c0 = out.case(lab1), out.case(lab0)
        if c1 is None or c0 is None:
            return
        where = out.src(c1.entry)
        if lost(out, 'C10.value', c1, where) or lost(out, 'C10.value', c0, where):
            return
        # the cosmology of the object at the redshift of the galaxy is what sets the distance otherwise
        v1, v0 = values_of(out, 'C10.results', c1, where), values_of(out, 'C10.results', c0, where)
        if v1 is None or v0 is None:
            return
        cosmo = c0.world.attr('cosmo')
        cname = cosmo.d['name'] if isinstance(cosmo, Lib) and cosmo.kind == 'cosmo' else None
        g = lambda t: t
        for name, a, v in v1:
            inst = '%s %s' % (lab1, name)
            if a is None:
                out.und('C10.distance', inst, 'not a single array')
                continue
            body10 = to_tenpc(a.body)
            nd = 0 if batch_of(lab1).n is None else 1
            gi = [atomP(IX('@0'))][:nd]
            dist = inp('dist', 'P', *gi)
            fac = powE(mul(dist, num(100000)), Fr(2))
            dmod = mul(num(5), log10E(mul(dist, num(100000))))
            if name in ('mremain', 'intsfh'):
                spec = lift(lambda t: mul(t, fac), b2n(body10))
                rule = 'C10.masses-scale-with-distance-squared'
            elif name in ('magnitude', 'reconstructed', 'limit'):
                spec = lift(lambda t: t if t is SENTINEL else sub(t, dmod), b2n(body10))
                rule = 'C10.distance-modulus'
            else:
                spec = body10
                rule = 'C10.independent-of-distance'
            check_terms(out, rule, inst, a.body, spec, c1.pc, where,
                        [x for p, ax in enumerate(a.axes) for x in axvars(p, ax)], [ax.dim for ax in a.axes])
        d1 = dict((n, (a, v)) for n, a, v in v1)
        for name, a, v in v0:
            if name not in d1 or d1[name][0] is None or a is None:
                continue
            inst = '%s vs distance given: %s' % (lab0, name)
            # redshift must enter the distance only through the cosmology of the object
            dls = atoms(a.body, lambda t: t.op == 'DL')
            badc = [t for t in dls if t.args[0] != cname]
            if badc:
                out.bad('C10.cosmology', inst, 'uses the cosmology %s instead of the one of the object (%s)' % (badc[0].args[0], cname), where)
                continue
            x = Arr(a.axes, dl_to_dist(a.body), a.dt)
            y = d1[name][0]
            if o is None and cls != 'Kcorrect':
                pass
            r = cmp_arr(x, y, c1.pc)
            out.decide('C10.same-with-cosmological-distance', inst, r.msg, where, not r.definite)
    return f


def c10_cosmo_task(cls, o):
    """distances come from the cosmology given to the constructor (Planck 2018 without one)"""
    lab = '%s%s built with a cosmology' % (cls, '+out' if o else '')
    mine = Lib('cosmo', name='GIVEN')

    def leaves(v):
        if isinstance(v, Phi):
            return leaves(v.a) + leaves(v.b)
        return [v.d['name'] if isinstance(v, Lib) and v.kind == 'cosmo' else repr(v)[:40]]

    def f(out):
        where = out.src('%s.__init__' % cls)
        for given, want in ((mine, 'GIVEN'), (None, 'Planck18')):
            w = suite.fresh(out.prog, cls, out=o, abcorrect=False, tables='abstract', **({'cosmo': given} if given else {}))
            out.ncases += 1
            out.note(w.it)
            names = leaves(w.attr('cosmo'))
            badn = [n for n in names if n != want]
            out.decide('C10.cosmology-of-the-object', '%s: %s' % (lab if given else lab.replace('a cosmology', 'no cosmology'), want),
                       'the cosmology of the object is %s instead of %s' % (badn[0], want) if badn else None, where, badn and '(' in badn[0])
            if given is None:
                continue
            if cls != 'Kcorrect':
                # the calculations are those of the base class, decided with it
                todo = [m for m in ('absmag', 'derived', 'absmag_mc', 'derived_mc') if not suite.inherited(out.prog, cls, m)]
            else:
                todo = ('absmag', 'derived', 'absmag_mc', 'derived_mc')
            for m in todo:
                mc = '_mc' if m.endswith('_mc') else ''
                w = suite.fresh(out.prog, cls, out=o, abcorrect=False, tables='abstract', cosmo=given)
                kw = suite.gal(w, BATCHES[0], *((['maggies' + mc, 'ivar'] if m.startswith('absmag') else []) + ['redshift', 'coeffs' + mc]))
                r = w.call(m, **kw)
                out.ncases += 1
                if m.startswith('absmag'):
                    vs = [merged(w.it, r)]
                else:
                    d = dict_vals(w.it, r, ('mremain', 'intsfh'), w.it.pc) or {}
                    vs = [merged(w.it, d[k]) for k in d]
                used = sorted(set(t.args[0] for a in vs if a is not None for t in atoms(a.body, lambda t: t.op == 'DL')))
                other = [n for n in used if n != want]
                inst = '%s: %s' % (lab, m)
                if other:
                    out.bad('C10.cosmology-used', inst, 'distances from the cosmology %s instead of the one given' % other[0], out.src('%s.%s' % ('Kcorrect', m)))
                elif used:
                    out.ok('C10.cosmology-used', inst, where)
                else:
                    out.und('C10.cosmology-used', inst, 'no distance appears in the result')
    return f


# ---------------------------------------------------------------- C11 band shifts
def c11_recon_task(cls, o, meth, b):
    lab = label(cls, o, meth, b, 'bs')

    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C11.value', c, where):
            return
        a = merged(c.it, c.result)
        if a is None:
            out.und('C11.shift', lab, 'not a single array')
            return
        bs = inp('bs', FIN)

        def shifted(n, fl, ix):
            if n == 'bs':
                return ZERO
            if n == 'z':
                return sub(mul(add(ONE, inp('z', FIN, *ix)), add(ONE, bs)), ONE)
            return None
        spec = lift(lambda t: div(t, add(ONE, bs)), b2n(sub_in(a.body, shifted)))
        dims = [ax.dim for ax in a.axes]
        vs = [x for p, ax in enumerate(a.axes) for x in axvars(p, ax)]
        check_terms(out, 'C11.flux-at-(1+z)(1+shift)-over-(1+shift)', lab, a.body, spec, c.pc, where, vs, dims)
        zero = sub_in(a.body, lambda n, fl, ix: ZERO if n == 'bs' else None)
        out.decide('C11.zero-is-none', lab, None if not atoms(zero, lambda t: t.op == 'in' and t.args[0] == 'bs') else 'depends on the shift', where)
        # no band shift given is a band shift of zero
        bb = batch_of(lab)

        def build(w):
            return suite.gal(w, bb, 'redshift', 'coeffs')
        c2 = suite.method_case(out.prog, cls, meth, build, lab + ' without band_shift', dict(out=o, abcorrect=False))
        out.ncases += 1
        out.note(c2.it)
        if not lost(out, 'C11.default', c2, where):
            check(out, 'C11.default-is-zero-shift', lab, c2.it, c2.result, Arr(a.axes, zero, a.dt), c2.pc, where)
    return f


def c11_k_task(cls, o, b):
    """K(shift) - K(0) is the change of the own output flux at redshift zero"""
    lab = label(cls, o, 'kcorrect', b, 'bs')

    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C11.value', c, where):
            return
        a = merged(c.it, c.result)
        k, r = own_parts(out, cls, o, b)
        if a is None or r is None:
            out.und('C11.kcorrect', lab, 'not a single array')
            return
        noshift = lambda t: sub_in(t, lambda n, fl, ix: ZERO if n == 'bs' else None)
        dims = [ax.dim for ax in a.axes]
        vs = [x for p, ax in enumerate(a.axes) for x in axvars(p, ax)]
        if r.ndim != a.ndim:
            out.und('C11.kcorrect', lab, 'own output fluxes have another shape')
            return
        ratio = mul(num(Fr(5, 2)), log10E(div(r.body, noshift(r.body))))
        sp = _spec(c)
        g = [atomP(IX('@0'))] if sp.b.n is not None else []
        change = ite(gt0(sp.csum(g)), ratio, ZERO)
        check_terms(out, 'C11.only-the-output-band-is-shifted', lab, b2n(a.body), add(noshift(b2n(a.body)), change), c.pc, where, vs, dims)
        bb = batch_of(lab)
        c2 = suite.method_case(out.prog, cls, 'kcorrect', lambda w: suite.gal(w, bb, 'redshift', 'coeffs'), lab + ' without band_shift',
                               dict(out=o, abcorrect=False))
        out.ncases += 1
        out.note(c2.it)
        if not lost(out, 'C11.default', c2, where):
            check(out, 'C11.default-is-zero-shift', lab, c2.it, c2.result, Arr(a.axes, noshift(a.body), a.dt), c2.pc, where)
    return f


def c11_use_task(cls, o, meth, b):
    """absolute magnitudes and mass-to-light ratios use the shift through the own K-correction and output flux only"""
    tag = {'absmag': 'ab,all', 'derived': ''}[meth]
    lab = label(cls, o, meth, b, tag)

    def f(out):
        c = out.case(lab)
        if c is None:
            return
        where = out.src(c.entry)
        if lost(out, 'C11.value', c, where):
            return
        vs_ = values_of(out, 'C11.results', c, where)
        k, r = own_parts(out, cls, o, b)
        if vs_ is None or k is None or r is None:
            out.und('C11.use', lab, 'own results are not arrays')
            return
        noshift = lambda t: sub_in(t, lambda n, fl, ix: ZERO if n == 'bs' else None)
        for name, a, v in vs_:
            inst = '%s %s' % (lab, name)
            if a is None:
                out.und('C11.use', inst, 'not a single array')
                continue
            dims = [ax.dim for ax in a.axes]
            vs = [x for p, ax in enumerate(a.axes) for x in axvars(p, ax)]
            z0 = noshift(b2n(a.body))
            if name in ('magnitude', 'limit'):
                dk = sub(b2n(k.body), noshift(b2n(k.body)))
                spec = apply('nosent', lambda t, d: t if t is SENTINEL else sub(t, d), z0, dk)
            elif name == 'kcorrect':
                spec = b2n(k.body)
            elif name == 'reconstructed':
                # sentinel wherever the flux is not positive, for any shift
                ro, r0 = b2n(r.body), noshift(b2n(r.body))
                spec = ite(gt0(ro), ite(gt0(r0), sub(z0, mul(num(Fr(5, 2)), log10E(div(ro, r0)))), b2n(a.body)), SENTINEL)
            elif name == 'mtol':
                ro, r0 = b2n(r.body), noshift(b2n(r.body))
                spec = ite(gt0(ro), ite(gt0(r0), mul(z0, div(r0, ro)), b2n(a.body)), ZERO)
            else:
                spec = z0
            check_terms(out, 'C11.use-of-the-shift', inst, b2n(a.body), spec, c.pc, where, vs, dims)
    return f


# ---------------------------------------------------------------- tasks
def combos(tier, classes=KC, meths=None):
    for cls in classes:
        for o in (None, True):
            for b in ('scalar', 'one', 'many'):
                yield cls, o, b


def ab_marker(it, f, env, node):
    """stands for the conversion: every element becomes a marked function of itself and its band"""
    names = [k for k in env if k != 'self']
    m = env.get('maggies', env[names[0]] if names else None)
    iv = env.get('ivar', env[names[1]] if len(names) > 1 else None)

    def conv(v, name, flags):
        a = it.arr(v)
        b = a.ndim - 1
        band = atomP(IX('@%d' % b)) if b >= 0 else ZERO
        return it.mkarr(Arr(a.axes, lift(lambda t: inp(name, flags, t, band), b2n(a.body)), a.dt))
    if iv is None:
        return conv(m, 'AB.flux', FIN)
    return Tup([conv(m, 'AB.flux', FIN), conv(iv, 'AB.ivar', 'PZ')])


# a correction of unknown form, as any subclass may define
AB_MARKED = {'Fitter.to_ab': ab_marker, 'Kcorrect.to_ab': ab_marker, 'KcorrectSDSS.to_ab': ab_marker, 'KcorrectGST.to_ab': ab_marker}
suite.VARIANTS['AB'] = dict(abcorrect=True, overrides=AB_MARKED)


# the same claims for objects with an axis of length one, and with the AB correction of the constructor
SMALL = (' {one output band}', ' {one band}', ' {one template}')


def variants(ab=True):
    """(class, output bands, batch, configuration)"""
    for o in (None, True):
        for b in ('scalar', 'many'):
            for v in SMALL:
                if o or 'output' not in v:
                    yield 'Kcorrect', o, b, v
            if ab:
                yield 'Kcorrect', o, b, ' {AB}'


def c08(tier):
    t = []
    for cls, o, b in combos(tier):
        for tag in ('', 'ab,all', 'dist,all'):
            t.append((label(cls, o, 'absmag', b, tag), c08_task(cls, o, b, tag)))
    for cls, o, b, v in variants(False):
        t.append((label(cls, o, 'absmag', b, 'ab,all') + v, c08_task(cls, o, b, 'ab,all', v)))
    for o in (None, True):
        for b in ('scalar', 'many') if tier == 'quick' else ('scalar', 'one', 'many'):
            t.append(('absmag flags %s %s' % (o, b), c08_flags_task(o, b)))
            t.append(('absmag_mc flags %s %s' % (o, b), c08_mc_flags_task(o, b)))
    return t


def c09(tier):
    return [(l, c09_task(l)) for l in [label(cls, o, 'kcorrect', b, 'bs') for cls, o, b in combos(tier)] +
            [label(cls, o, 'kcorrect', b, 'bs') + v for cls, o, b, v in variants()]]


def c10(tier):
    t = []
    for cls, o, b in combos(tier):
        for m in ('absmag', 'derived', 'absmag_mc', 'derived_mc'):
            t.append((label(cls, o, m, b, 'distances'), c10_task(cls, o, m, b)))
    for cls in KC:
        for o in (None, True):
            t.append(('cosmology %s%s' % (cls, '+out' if o else ''), c10_cosmo_task(cls, o)))
    return t


def c11(tier):
    t = []
    for cls, o, b in combos(tier, ('Kcorrect', 'Fitter', 'KcorrectSDSS', 'KcorrectGST')):
        if cls == 'Fitter' and o:
            continue
        t.append((label(cls, o, 'reconstruct', b, ''), c11_recon_task(cls, o, 'reconstruct', b)))
        if cls != 'Fitter':
            t.append((label(cls, o, 'reconstruct_out', b, ''), c11_recon_task(cls, o, 'reconstruct_out', b)))
            t.append((label(cls, o, 'kcorrect', b, ''), c11_k_task(cls, o, b)))
            for m in ('absmag', 'derived'):
                t.append((label(cls, o, m, b, ''), c11_use_task(cls, o, m, b)))
    return t


def c12(tier):
    t = [(label(cls, o, 'derived', b, tag), c12_task(cls, o, b, tag)) for cls, o, b in combos(tier) for tag in ('', 'dist')]
    return t + [(label(cls, o, 'derived', b, '') + v, c12_task(cls, o, b, '', v)) for cls, o, b, v in variants()]


def c32(tier):
    t = []
    for cls, o, b in combos(tier, ('Kcorrect', 'Fitter', 'KcorrectSDSS', 'KcorrectGST')):
        if cls == 'Fitter' and o:
            continue
        for m in ('reconstruct',) + (('reconstruct_out',) if cls != 'Fitter' else ()):
            l = label(cls, o, m, b, 'bs')
            t.append((l, c32_task(l)))
    for cls, o, b, v in variants():
        for m in ('reconstruct', 'reconstruct_out'):
            l = label(cls, o, m, b, 'bs') + v
            t.append((l, c32_task(l)))
    return t
