"""C19: inconsistent inputs never produce a result, valid inputs are never rejected.

Every inconsistency is an abstract call: the array concerned gets other (symbolic) axes, together with the assumption that the lengths
differ, including the lengths of one which numpy would silently broadcast.  No path of the call may return."""
import builtins
import os
from .common import *
from ..suite import *
from ..interp import streq_atom
from .. import suite
from .fits import NOFAIL, out_range

M, CB, KX = dim('M'), dim('C'), dim('K')
B_ = {b.kind: b for b in BATCHES}


def differ(a, b):
    return Not(cmp('==', a, b))


def bad_shapes(mode, n, last, extra=()):
    """[(what, dims, assumption)] for an array that should be [n, last] + extra"""
    e = list(extra)
    r = []
    if mode == 'scalar':
        r = [('another length', [CB] + e, differ(CB, last)), ('one element', [ONE] + e, differ(last, ONE)), ('an axis of objects', [N, last] + e, TRUE),
             ('an axis of one object', [ONE, last] + e, TRUE), ('no axes', [] + e, TRUE)]
    else:
        r = [('no axis of objects', [last] + e, TRUE), ('no axis of bands', [n] + e, TRUE), ('three axes', [n, last, KX] + e, TRUE), ('no axes', [] + e, TRUE),
             ('another number of objects', [M, last] + e, differ(M, n)), ('another length of the last axis', [n, CB] + e, differ(CB, last)),
             ('a last axis of one', [n, ONE] + e, differ(last, ONE)), ('axes exchanged', [last, n] + e, differ(last, n))]
        if const(n) is None:
            r.append(('a single object', [ONE, last] + e, differ(n, ONE)))
    return [(w, d, c) for w, d, c in r if c is not FALSE]


def must_fail(out, rule, inst, it, cond, where, th, err=None):
    """the call th never returns where cond holds"""
    heap, pc0 = it.heap, it.pc
    it.heap = dict(heap)
    it.pc = cond
    nr, ne, nu = len(it.top_raises), len(it.events), len(it.unmodelled)
    try:
        it.run(th)
        pc = it.pc
    except Dead:
        pc = FALSE
    rs = it.top_raises[nr:]
    del it.top_raises[nr:]
    lost_ = list(it.unmodelled)[nu:]
    it.heap, it.pc = heap, pc0
    pc = And(pc, cond)
    if pc is FALSE:
        bad = [r for r in rs if r['exc'].name in ('NameError', 'UnboundLocalError', 'AttributeError') and And(r['pc'], cond) is not FALSE and not r['pc'].opq]
        if err is not None and bad:
            out.bad(rule, inst, 'fails with %s at %s instead of a rejection of the input' % (bad[0]['exc'].name, bad[0]['where']), bad[0]['where'])
            return
        out.ok(rule, inst, where)
        return
    r = cmp_body(b2n(pc), ZERO, [], [])
    if r:
        out.ok(rule, inst, where)
    elif r.definite and not pc.opq:
        out.bad(rule, inst, 'returns a result%s' % ('' if pc is cond else ' where ' + brief(pc, 160)), where)
    else:
        out.und(rule, inst, 'may return a result%s' % (' (%s)' % (lost_[0][0],) if lost_ else ''), where)


METHODS = (('fit_coeffs', ('redshift', 'maggies', 'ivar'), {}), ('fit_coeffs', ('redshift', 'maggies', 'ivar'), {'mc': 1}),
           ('reconstruct', ('redshift', 'coeffs'), {}), ('reconstruct_out', ('redshift', 'coeffs'), {}), ('kcorrect', ('redshift', 'coeffs'), {}),
           ('absmag', ('maggies', 'ivar', 'redshift', 'coeffs'), {}), ('absmag', ('maggies', 'ivar', 'redshift', 'coeffs'), {'limit': 1, 'reconstruct': 1, 'kcorrect': 1}),
           ('derived', ('redshift', 'coeffs'), {}), ('absmag_mc', ('maggies_mc', 'ivar', 'redshift', 'coeffs_mc'), {}), ('derived_mc', ('redshift', 'coeffs_mc'), {}))


def last_of(w, name):
    return w.ntempl if name.startswith('coeffs') else w.nb


def method_task(cls, o, meth, names, extra, mode, abc):
    lab = '%s%s.%s(%s%s)%s' % (cls, ' with output bands' if o else '', meth, mode, ''.join(', ' + k for k in extra), ' abcorrect' if abc else '')

    def f(out):
        where = out.src('%s.%s' % (cls, meth))
        w = fresh(out.prog, cls, out=o, abcorrect=abc, tables='abstract')
        it = w.it
        b = B_[mode]
        n = b.n
        ex = {k: (scalar(MC, 'i', True) if k == 'mc' else boolv(True)) for k in extra}
        probes = []
        for nm in names:
            if nm == 'redshift':
                z = [('two axes', [n or N, ONE], TRUE), ('two axes (2)', [n or N, KX], TRUE)]
                for what, dims, c in z:
                    probes.append((nm, what, dims, c))
                continue
            for what, dims, c in bad_shapes(mode, n, last_of(w, nm), [MC] if nm.endswith('_mc') else []):
                probes.append((nm, what, dims, c))
        if meth.startswith(('absmag', 'derived')):
            if b.n is None:
                z = [('an axis of objects', [N], TRUE)]
            else:
                z = [('no axes', [], TRUE), ('another number of objects', [M], differ(M, n)), ('two axes', [n, ONE], TRUE)]
                if const(n) is None:
                    z.append(('a single object', [ONE], differ(n, ONE)))
            probes += [('distance', what, dims, c) for what, dims, c in z]
        for nm, what, dims, c in probes:
            kw = gal(w, b, *names)
            kw.update(ex)
            flags = {'ivar': 'PZ', 'distance': 'P', 'coeffs': 'PZ', 'coeffs_mc': 'PZ'}.get(nm, FIN)
            kw[nm] = symarr(it, 'bad.' + nm, dims, flags)
            m = w.attr(meth)
            must_fail(out, 'C19.inconsistent-rejected', '%s: %s with %s' % (lab, nm, what), it, c, where, lambda: it.call(m, [], kw, NODE))
        kw = gal(w, b, *[x for x in names if x != 'redshift'])
        kw.update(ex)
        must_fail(out, 'C19.inconsistent-rejected', '%s: without redshift' % lab, it, TRUE, where, lambda: it.call(m, [], kw, NODE))
        out.note(it)
        out.ncases += len(probes) + 1
    return lab, f


def asinh_task(mode, abc):
    lab = 'KcorrectSDSS.fit_coeffs_asinh(%s)%s' % (mode, ' abcorrect' if abc else '')

    def f(out):
        where = out.src('KcorrectSDSS.fit_coeffs_asinh')
        w = fresh(out.prog, 'KcorrectSDSS', abcorrect=abc, tables='abstract')
        it, b = w.it, B_[mode]
        k = 0
        for nm in ('mag', 'mag_err', 'extinction', 'redshift'):
            for what, dims, c in (bad_shapes(mode, b.n, num(5)) if nm != 'redshift' else [('two axes', [b.n or N, ONE], TRUE)]):
                kw = {'redshift': b.arr(it, 'z'), 'mag': b.arr(it, 'mag', num(5)), 'mag_err': b.arr(it, 'magerr', num(5), flags='P'), 'extinction': b.arr(it, 'ext', num(5))}
                kw[nm] = symarr(it, 'bad.' + nm, dims, 'P' if nm == 'mag_err' else FIN)
                m = w.attr('fit_coeffs_asinh')
                must_fail(out, 'C19.inconsistent-rejected', '%s: %s with %s' % (lab, nm, what), it, c, where, lambda: it.call(m, [], kw, NODE))
                k += 1
        out.note(it)
        out.ncases += k
    return lab, f


def util_shapes(good, ref):
    """shapes that disagree with ref (a list of axes) for an array of the same shape"""
    r = []
    if not ref[:-1]:
        r = [('another length', [CB], differ(CB, ref[0])), ('an axis of objects', [N, ref[0]], TRUE), ('an axis of one object', [ONE, ref[0]], TRUE), ('no axes', [], TRUE),
             ('one element', [ONE], differ(ref[0], ONE))]
    else:
        n = ref[0]
        r = [('no axis of objects', [ref[1]], TRUE), ('another number of objects', [M, ref[1]], differ(M, n)), ('another length of the last axis', [n, CB], differ(CB, ref[1])),
             ('no axes', [], TRUE), ('three axes', [n, ref[1], KX], TRUE), ('a last axis of one', [n, ONE], differ(ref[1], ONE))]
        if const(n) is None:
            r.append(('a single object', [ONE, ref[1]], differ(n, ONE)))
    return [(w, d, c) for w, d, c in r if c is not FALSE]


def utils_task(mode):
    lab = 'conversions (%s)' % mode

    def f(out):
        b = B_[mode]
        it = free_world(out.prog)
        k = [0]

        def call(fn, what, c, **kw):
            k[0] += 1
            g = find_func(it, fn)
            must_fail(out, 'C19.conversion-rejected', '%s(%s): %s' % (fn, mode, what), it, c, out.src(fn), lambda: it.call(g, [], kw, NODE))
        five = b.dims(num(5))
        A5 = lambda nm, fl=FIN: b.arr(it, nm, num(5), flags=fl)
        wrong5 = [('maggies of another number of bands', b.dims(CB), differ(CB, num(5))), ('maggies of one band', b.dims(ONE), TRUE)]
        # SDSS to AB
        for iv in (False, True):
            for what, d, c in wrong5:
                kw = {'maggies': symarr(it, 'bad', d)}
                if iv:
                    kw['ivar'] = symarr(it, 'badiv', d, 'PZ')
                call('sdss_ab_correct', what + (' with ivar' if iv else ''), c, **kw)
        for what, d, c in util_shapes(None, five):
            call('sdss_ab_correct', 'ivar with ' + what, c, maggies=A5('maggies'), ivar=symarr(it, 'badiv', d, 'PZ'))
        for what, d, c in (('of another length', [CB], differ(CB, num(5))), ('of one element', [ONE], TRUE)):
            call('sdss_ab_correct', 'offsets ' + what, c, maggies=A5('maggies'), abfix=symarr(it, 'abfix', d))
            call('sdss_ab_correct', 'offsets ' + what + ' with ivar', c, maggies=A5('maggies'), ivar=A5('ivar', 'PZ'), abfix=symarr(it, 'abfix', d))
        # asinh magnitudes
        for er in (False, True):
            for ex in (False, True):
                for what, d, c in wrong5:
                    kw = {'mag': symarr(it, 'bad', d)}
                    if er:
                        kw['mag_err'] = symarr(it, 'badmagerr', d, 'P')
                    if ex:
                        kw['extinction'] = symarr(it, 'badext', d)
                    call('sdss_asinh_to_maggies', what.replace('maggies', 'magnitudes') + (' with errors' if er else '') + (' with extinction' if ex else ''), c, **kw)
        for what, d, c in util_shapes(None, five):
            call('sdss_asinh_to_maggies', 'errors with ' + what, c, mag=A5('mag'), mag_err=symarr(it, 'badmagerr', d, 'P'))
            call('sdss_asinh_to_maggies', 'extinction with ' + what, c, mag=A5('mag'), extinction=symarr(it, 'badext', d))
            call('sdss_asinh_to_maggies', 'extinction (and errors) with ' + what, c, mag=A5('mag'), mag_err=A5('magerr', 'P'), extinction=symarr(it, 'badext', d))
        # error floors
        AN = lambda nm, fl=FIN: b.arr(it, nm, NI, flags=fl)
        fl = symarr(it, 'floor', [NI], 'P')
        for what, d, c in (('of another length', [CB], differ(CB, NI)), ('of one element', [ONE], differ(NI, ONE))):
            call('error_floor', 'floor ' + what, c, floor=symarr(it, 'badfloor', d, 'P'), maggies=AN('maggies'), ivar=AN('ivar', 'PZN'))
        for what, d, c in util_shapes(None, b.dims(NI)):
            call('error_floor', 'ivar with ' + what, c, floor=fl, maggies=AN('maggies'), ivar=symarr(it, 'badiv', d, 'PZN'))
            if d and not eq(d[-1], NI):
                c = And(c, differ(d[-1], NI))
                call('error_floor', 'maggies with ' + what, c, floor=fl, maggies=symarr(it, 'bad', d), ivar=AN('ivar', 'PZN'))
                call('error_floor', 'maggies and ivar with ' + what, c, floor=fl, maggies=symarr(it, 'bad', d), ivar=symarr(it, 'badiv', d, 'PZN'))
        out.note(it)
        out.ncases += k[0]
    return lab, f


def map_task(cls):
    lab = cls + ' with inconsistent output bands'

    def f(out):
        where = out.src('Kcorrect.__init__')
        w = fresh(out.prog, cls, symresp=True)
        it = w.it
        K2 = find_class(it, cls)

        def mk(nout, nmap, mapname, tmpl=True):
            kw = {'responses': symlist(it, NI, 'RESP'), 'responses_out': symlist(it, nout, 'RESPOUT'),
                  'redshift_range': it.new(ListCell([sscalar('zlo'), sscalar('zhi')])), 'nredshift': scalar(NZ, 'i', True)}
            if nmap is not None:
                kw['responses_map'] = symlist(it, nmap, mapname)
            return kw
        it.assumed.update({('listeq', 'RESP', 'RESPOUT'): False, 'listeq?': False})
        probes = [('a map of another length', mk(NO, dim('NMAP'), 'RESPMAP'), differ(dim('NMAP'), NO)),
                  ('a map of one band', mk(NO, ONE, 'RESPMAP'), differ(NO, ONE)),
                  ('no map and another number of output bands', mk(NO, None, None), differ(NO, NI))]
        for what, kw, c in probes:
            must_fail(out, 'C19.map-rejected', '%s: %s' % (cls, what), it, c, where, lambda: it.instantiate(K2, [], kw, NODE))
        # a mapped band that is none of the input bands
        for nm, k in (('first', 0), ('last', 1)):
            names_ = ['one', 'two']
            names_[k] = 'unknown'
            kw = {'responses': it.new(ListCell(['one', 'two'])), 'responses_out': it.new(ListCell(['three', 'four'])), 'responses_map': it.new(ListCell(names_)),
                  'redshift_range': it.new(ListCell([sscalar('zlo'), sscalar('zhi')])), 'nredshift': scalar(NZ, 'i', True)}
            must_fail(out, 'C19.map-rejected', '%s: the %s mapped band is no input band' % (cls, nm), it, TRUE, where, lambda: it.instantiate(K2, [], kw, NODE))
        unk = symlist(it, NO, 'RESPMAP')
        kw = mk(NO, NO, 'RESPMAP')
        v = fresh_ix()
        c = unknown_band(it)
        must_fail(out, 'C19.map-rejected', '%s: a mapped band is no input band' % cls, it, c, where, lambda: it.instantiate(K2, [], kw, NODE))
        out.note(it)
        out.ncases += len(probes) + 3
    return lab, f


def unknown_band(it):
    """some band of RESPMAP is not in RESP"""
    v, k = fresh_ix(), fresh_ix()
    lam = mklam([v], mk('in', 'RESP', '', atomP(v)))
    f = flag(raw_atom('inlist', lam, mk('in', 'RESPMAP', '', atomP(k))))
    return exists(NO, mklam([k], Not(f)))


def unknown_of(names):
    """some band of RESPMAP is none of the given names"""
    k = fresh_ix()
    m = mk('in', 'RESPMAP', '', atomP(k))
    c = FALSE
    for n in names:
        c = Or(c, flag(streq_atom(m, atomP(raw_atom('str', n)))))
    return exists(NO, mklam([k], Not(c)))


def project_task():
    lab = 'Response.project'

    def f(out):
        where = out.src('Response.project')
        it = resp_world(out.prog)
        o = make_resp(it, 'arrays')
        s1 = symarr(it, 'wave', [NW], 'P')
        P1 = [('neither spectrum nor arrays', {}, TRUE), ('wavelengths alone', {'wave': s1}, TRUE), ('fluxes alone', {'flux': symarr(it, 'flux', [NW], 'PZ')}, TRUE),
              ('2-D wavelengths', {'wave': symarr(it, 'wave2', [NT, NW], 'P'), 'flux': symarr(it, 'flux', [NT, NW], 'PZ')}, TRUE),
              ('a scalar wavelength', {'wave': sscalar('w', 'P'), 'flux': symarr(it, 'flux', [NW], 'PZ')}, TRUE),
              ('1-D fluxes of another length', {'wave': s1, 'flux': symarr(it, 'flux', [M], 'PZ')}, differ(M, NW)),
              ('fluxes of one element', {'wave': s1, 'flux': symarr(it, 'flux', [ONE], 'PZ')}, differ(NW, ONE)),
              ('2-D fluxes of another length', {'wave': s1, 'flux': symarr(it, 'flux', [NT, M], 'PZ')}, differ(M, NW)),
              ('2-D fluxes with exchanged axes', {'wave': s1, 'flux': symarr(it, 'flux', [NW, NT], 'PZ')}, differ(NT, NW)),
              ('3-D fluxes', {'wave': s1, 'flux': symarr(it, 'flux', [NT, KX, NW], 'PZ')}, TRUE),
              ('3-D fluxes of other lengths', {'wave': s1, 'flux': symarr(it, 'flux', [NT, NW, KX], 'PZ')}, differ(KX, NW))]
        m = run(it, lambda: it.getattr(o, 'project', NODE))
        for what, kw, c in P1:
            must_fail(out, 'C19.projection-rejected', 'Response.project: ' + what, it, c, where, lambda: it.call(m, [], kw, NODE))
        out.note(it)
        out.ncases += len(P1)
    return lab, f


def file_task():
    lab = 'missing response files'

    def f(out):
        k = 0
        for nm, t in (('absolute', '<CWD>/nowhere.dat'), ('relative', 'nowhere.dat')):
            it = resp_world(out.prog)
            o = make_resp(it, 'none')
            missing = no_file(it)
            m = run(it, lambda: it.getattr(o, 'fromdat', NODE))
            must_fail(out, 'C19.missing-file-rejected', 'Response.fromdat of a missing %s file' % nm, it, missing(t), out.src('Response.fromdat'),
                      lambda: it.call(m, [], {'filename': t}, NODE))
            must_fail(out, 'C19.missing-file-rejected', 'Response() of a missing %s file' % nm, it, missing(t), out.src('Response.__init__'),
                      lambda: it.instantiate(find_class(it, 'Response'), [], {'filename': t}, NODE))
            it = resp_world(out.prog)
            r = reg(it)
            m = run(it, lambda: it.getattr(r, 'load_response', NODE))
            must_fail(out, 'C19.missing-file-rejected', 'load_response of a missing band (%s)' % nm, it, no_file(it)(t), out.src('ResponseDict.load_response'),
                      lambda: it.call(m, [], {'response': t[:-4]}, NODE))
            k += 3
            out.note(it)
        out.ncases += k
    return lab, f


def no_file(it):
    def g(t):
        """neither the path nor the shipped file of that name exists"""
        c = TRUE
        paths = [t] if t.startswith('<') else [t, '<CWD>/' + t, '<PKG>/data/responses/' + t]
        for p in paths:
            c = And(c, Not(flag(raw_atom('path_exists', atomP(raw_atom('str', p))))))
        return c
    return g


# ---------------------------------------------------------------- valid inputs
def valid_task(name):
    def f(out):
        c = out.case(name)
        if c is None:
            return
        for e in c.events:
            if e.kind == 'bad-raise':
                out.bad('C19.exception-object', '%s at %s' % (name, e.data.get('where')), 'raises %s, which is no exception' % e.data.get('what'), e.data.get('where'))
        if not any(v in name for v in VALID):
            return
        where = out.src(c.entry)
        good = valid_cond(out, c, name)
        n = 0
        for r in c.raises:
            p = NOFAIL(r['pc'])
            p = And(p, good)
            if p is FALSE:
                continue
            x = cmp_body(b2n(p), ZERO, [], [])
            if x:
                continue
            n += 1
            (out.bad if x.definite and not p.opq else out.und)('C19.valid-accepted', name, 'raises %s at %s where %s' % (r['exc'].name, r['where'], brief(p, 160)), r['where'])
            break
        if not n:
            out.ok('C19.valid-accepted', name, where)
        bands_loaded(out, 'C19.bands-loaded', name, c)
    return 'valid ' + name, f


def valid_cond(out, c, name):
    """the condition under which the inputs of the case are valid"""
    meth = c.entry.split('.')[-1]
    if c.world is not None and meth in ('reconstruct', 'reconstruct_out', 'kcorrect', 'absmag', 'absmag_mc', 'derived', 'derived_mc'):
        from .fits import _spec
        return Not(out_range(_spec(c), meth))
    if c.world is not None and meth == 'fromfits':
        return c.world.ctor_pc
    if c.world is not None and meth == '__init__' and c.world.out:
        names = None if c.world.clsname == 'Kcorrect' else c.it.concrete(c.it.heap[c.world.o.cid].attrs['responses'])
        return Not(unknown_band(c.it)) if names is None else Not(unknown_of(names))
    if meth in ('fromdat', 'load_response') or name == 'Response(file)':
        return files_exist(c)
    return TRUE


def files_exist(c):
    """every file the call asks about exists where it asks first"""
    seen, cond = set(), TRUE

    def atoms(t):
        if isinstance(t, tuple):
            for x in t:
                atoms(x)
            return
        if id(t) in seen:
            return
        seen.add(id(t))
        if isinstance(t, Atom) and t.op in ('path_exists', 'path_isfile'):
            found.append(t)
        for s in getattr(type(t), '__slots__', ()):
            x = getattr(t, s, None)
            if isinstance(x, (Node, tuple)):
                atoms(x)
    found = []
    for r in c.raises:
        atoms(r['pc'])
    for a in found:
        cond = And(cond, flag(a))
    return cond


# ---------------------------------------------------------------- what is raised
def raised_task():
    def f(out):
        for name, (path, tree) in sorted(out.prog.files.items()):
            for node in ast.walk(tree):
                if isinstance(node, ast.Raise) and node.exc is not None:
                    v = node.exc
                    rel = 'src/kcorrect/' + os.path.basename(path)
                    w = '%s:%d' % (rel, node.lineno)
                    k = v.func if isinstance(v, ast.Call) else v
                    bad = None
                    if isinstance(v, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.JoinedStr, ast.BinOp)):
                        bad = 'raises %s, which is no exception' % ast.unparse(v)[:60]
                    elif isinstance(k, ast.Name) and isinstance(getattr(builtins, k.id, None), type) and not issubclass(getattr(builtins, k.id), BaseException):
                        bad = 'raises %s, which is no exception' % ast.unparse(v)[:60]
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'format':
                        bad = 'raises a string'
                    (out.bad if bad else out.ok)(*(('C19.exception-object', 'raise at ' + w) + ((bad,) if bad else ()) + (w,)))
    return 'what is raised', f


VALID = ('.fit_coeffs[', '.fit_coeffs_asinh[', '.reconstruct[', '.reconstruct_out[', '.kcorrect[', '.absmag[', '.absmag_mc[', '.derived[', '.derived_mc[', '.to_ab[',
         '()', 'sdss_', 'error_floor', 'maggies2flambda', 'project[', 'Response(', 'SED(', 'Template(', 'fits', 'load_response')


def c19(tier):
    t = [map_task(c) for c in ('Kcorrect', 'KcorrectSDSS', 'KcorrectGST')] + [project_task(), file_task(), raised_task()]
    for b in ('scalar', 'one', 'many'):
        t.append(utils_task(b))
        for abc in (False, True):
            t.append(asinh_task(b, abc))
        for cls in ('Fitter', 'Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
            for o in (None, True) if cls != 'Fitter' else (None,):
                for meth, names, extra in METHODS:
                    if cls == 'Fitter' and meth not in ('fit_coeffs', 'reconstruct'):
                        continue
                    if tier == 'quick' and cls == 'KcorrectGST' and (o or extra or b == 'one'):
                        continue
                    if o and meth in ('fit_coeffs', 'reconstruct'):
                        continue
                    for abc in (False, True) if 'maggies' in names else (False,):
                        t.append(method_task(cls, o, meth, names, extra, b, abc))
    for n in suite.names():
        t.append(valid_task(n))
    return t
