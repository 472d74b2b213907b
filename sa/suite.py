"""Every public entry point of the package under its input regimes, evaluated abstractly.

Each entry is (name, builder); the builder returns a Case: the interpreter after the call, the abstract result,
the events and the exceptions that can reach the caller.  No kcorrect code is executed.
"""
from .contexts import *

OUTNAME = '<CWD>/out.fits'


class Case(object):
    def __init__(self, name, it, entry, result, world=None, args=None, ev0=0, nr0=0):
        self.name, self.it, self.entry, self.result, self.world = name, it, entry, result, world
        self.args = args or {}
        self.events = it.events[ev0:]
        self.raises = it.top_raises[nr0:]
        self.pc = it.pc


_cases = {}
ORDER = []


def case(name):
    def deco(f):
        _cases[name] = f
        ORDER.append(name)
        return f
    return deco


_worlds = {}


def fresh(prog, cls, **kw):
    """worlds are forked, because cases mutate them"""
    import copy
    return World(prog, cls, **kw)


def method_case(prog, cls, meth, build, label, wkw=None):
    w = fresh(prog, cls, **dict({'tables': 'abstract'}, **dict(wkw or {}, **_variant)))
    it = w.it
    kw = build(w)
    ev0, nr0 = len(it.events), len(it.top_raises)
    it.pc = TRUE
    pre = dict(it.heap)
    r = w.call(meth, **kw)
    c = Case(label, it, '%s.%s' % (cls, meth), r, w, kw, ev0, nr0)
    c.pre = pre
    return c


def gal(w, b, *names, **opt):
    it = w.it
    d = {}
    nb = opt.get('nb', w.nb)
    for n in names:
        if n == 'redshift':
            d[n] = b.arr(it, 'z')
        elif n == 'maggies':
            d[n] = b.arr(it, 'maggies', nb, flags=opt.get('mflags', FIN))
        elif n == 'ivar':
            d[n] = b.arr(it, 'ivar', nb, flags=opt.get('iflags', 'PZ'))
        elif n == 'coeffs':
            d[n] = b.arr(it, 'coeffs', w.ntempl, flags='PZ')
        elif n == 'coeffs_mc':
            d[n] = b.arr(it, 'coeffs_mc', w.ntempl, w.mc, flags='PZ')
        elif n == 'maggies_mc':
            d[n] = b.arr(it, 'maggies_mc', nb, w.mc)
        elif n == 'distance':
            d[n] = b.arr(it, 'dist', flags='P')
        elif n == 'band_shift':
            d[n] = sscalar('bs')
    return d


_base = {}


def base_interp(prog):
    if id(prog) not in _base:
        _base[id(prog)] = (prog, Interp(prog, LibModel()))
    return _base[id(prog)][1]


def inherited(prog, cls, meth, base='Kcorrect'):
    """the subclass runs the very method of the base class (so its results are those of the base class)"""
    it = base_interp(prog)
    a, _ = find_class(it, cls).lookup(meth)
    b, _ = find_class(it, base).lookup(meth)
    if a is None or a is not b:
        return False
    # nothing the method may call on self is replaced by the subclass
    bc = find_class(it, base)
    own = [c for c in find_class(it, cls).mro() if isinstance(c, ClassV) and c not in bc.mro()]
    for c in own:
        for n, v in c.attrs.items():
            if n not in ('__init__', 'to_ab', 'fit_coeffs_asinh', '__doc__', '__module__') and bc.lookup(n)[0] is not None:
                return False
    return True


CLASSES = ('Fitter', 'Kcorrect', 'KcorrectSDSS', 'KcorrectGST')


def _reg():
    B = {'scalar': BATCHES[0], 'one': BATCHES[1], 'many': BATCHES[2]}
    outs = {'Kcorrect': (None, True), 'Fitter': (None,), 'KcorrectSDSS': (None, True), 'KcorrectGST': (None, True)}

    def add(cls, out, meth, bk, tag, names, extra, abc):
        label = '%s%s.%s[%s%s]' % (cls, '+out' if out else '', meth, bk, (',' + tag) if tag else '')

        def f(prog, cls=cls, out=out, meth=meth, bk=bk, names=names, extra=extra, abc=abc, label=label):
            if cls in ('KcorrectSDSS', 'KcorrectGST') and meth != 'to_ab' and inherited(prog, cls, meth):
                return None

            def build(w):
                d = gal(w, B[bk], *names)
                for k, v in extra.items():
                    d[k] = v(w) if callable(v) else v
                return d
            return method_case(prog, cls, meth, build, label, dict(out=out, abcorrect=abc))
        case(label)(f)

    mcv = lambda w: scalar(w.mc, 'i', True)
    for cls in CLASSES:
        for out in outs[cls]:
            for bk in ('scalar', 'one', 'many'):
                if out is None:
                    for abc in (False, True):
                        t = 'ab' if abc else ''
                        add(cls, out, 'fit_coeffs', bk, t, ('redshift', 'maggies', 'ivar'), {}, abc)
                        add(cls, out, 'fit_coeffs', bk, t + 'mc', ('redshift', 'maggies', 'ivar'), {'mc': mcv}, abc)
                    if cls == 'KcorrectSDSS':
                        for abc in (False, True):
                            for ext in (False, True):
                                lab = 'KcorrectSDSS.fit_coeffs_asinh[%s%s%s]' % (bk, ',ab' if abc else '', ',ext' if ext else '')

                                def f(prog, bk=bk, abc=abc, ext=ext, lab=lab):
                                    def build(w):
                                        b = B[bk]
                                        d = {'redshift': b.arr(w.it, 'z'), 'mag': b.arr(w.it, 'mag', num(5)),
                                             'mag_err': b.arr(w.it, 'magerr', num(5), flags='P')}
                                        if ext:
                                            d['extinction'] = b.arr(w.it, 'ext', num(5))
                                        return d
                                    return method_case(prog, 'KcorrectSDSS', 'fit_coeffs_asinh', build, lab, dict(abcorrect=abc))
                                case(lab)(f)
                    add(cls, out, 'to_ab', bk, '', ('maggies', 'ivar'), {}, True)
                    add(cls, out, 'to_ab', bk, 'noivar', ('maggies',), {}, True)
                add(cls, out, 'reconstruct', bk, 'bs', ('redshift', 'coeffs', 'band_shift'), {}, False)
                if cls == 'Fitter':
                    continue
                add(cls, out, 'reconstruct_out', bk, 'bs', ('redshift', 'coeffs', 'band_shift'), {}, False)
                add(cls, out, 'kcorrect', bk, 'bs', ('redshift', 'coeffs', 'band_shift'), {}, False)
                base = ('maggies', 'ivar', 'redshift', 'coeffs', 'band_shift')
                flags = {'reconstruct': boolv(True), 'limit': boolv(True), 'kcorrect': boolv(True)}
                add(cls, out, 'absmag', bk, '', base, {}, False)
                add(cls, out, 'absmag', bk, 'ab,all', base, flags, True)
                add(cls, out, 'absmag', bk, 'dist,all', base + ('distance',), flags, False)
                add(cls, out, 'derived', bk, '', ('redshift', 'coeffs', 'band_shift'), {}, False)
                add(cls, out, 'derived', bk, 'dist', ('redshift', 'coeffs', 'band_shift', 'distance'), {}, False)
                if True:
                    bmc = ('maggies_mc', 'ivar', 'redshift', 'coeffs_mc', 'band_shift')
                    add(cls, out, 'absmag_mc', bk, '', bmc, {}, False)
                    add(cls, out, 'absmag_mc', bk, 'dist,all', bmc + ('distance',),
                        {'reconstruct': boolv(True), 'kcorrect': boolv(True)}, True)
                    add(cls, out, 'derived_mc', bk, '', ('redshift', 'coeffs_mc', 'band_shift'), {}, False)
                    add(cls, out, 'derived_mc', bk, 'dist', ('redshift', 'coeffs_mc', 'band_shift', 'distance'), {}, False)


_reg()


# ---------------------------------------------------------------- whole-object operations
def _tofits(cls, out, ab=False):
    mark = ('+out' if out else '') + ('(ab)' if ab else '')
    label = '%s%s.tofits' % (cls, mark)

    @case(label)
    def f(prog):
        return method_case(prog, cls, 'tofits', lambda w: {'filename': OUTNAME}, label, dict(out=out, abcorrect=ab))

    label2 = '%s%s.fromfits' % (cls, mark)

    @case(label2)
    def g(prog):
        w = fresh(prog, cls, out=out, abcorrect=ab, tables='abstract')
        w.call('tofits', filename=OUTNAME)
        it = w.it
        it.pc = TRUE
        ev0, nr0 = len(it.events), len(it.top_raises)
        if cls == 'Kcorrect':
            r = w.run(lambda: it.instantiate(w.cls, [], {'filename': OUTNAME}, NODE))
        else:
            w.call('fromfits', filename=OUTNAME)
            r = w.o
        return Case(label2, it, cls + '.fromfits', r, w, {}, ev0, nr0)


for _c in ('Kcorrect', 'KcorrectSDSS', 'KcorrectGST'):
    for _o in (None, True):
        _tofits(_c, _o)
        _tofits(_c, _o, True)


def _ctor(cls, label, **kw):
    @case(label)
    def f(prog):
        w = World(prog, cls, **kw)
        c = Case(label, w.it, cls + '.__init__', w.o, w, w.kw)
        c.events, c.raises, c.pc = w.ctor_events, w.ctor_raises, w.ctor_pc
        return c


for _c in CLASSES:
    for _o in ((None, True) if _c != 'Fitter' else (None,)):
        _ctor(_c, '%s%s()' % (_c, '+out' if _o else ''), out=_o)
for _c in ('Kcorrect',):
    _ctor(_c, '%s(no template interpolation)' % _c, interpolate_templates=boolv(False))
    _ctor(_c, '%s(template interpolation)' % _c, interpolate_templates=boolv(True))


# ---------------------------------------------------------------- spectra
def free_world(prog, real_registry=False, m50=None, overrides=None):
    ov = dict(overrides or {})
    if not real_registry:
        ov['class:ResponseDict'] = registry_override
    it = Interp(prog, LibModel(), ov)
    template_file(it, m50)
    return it


def make_sed(it, cls='SED', interpolate=None, flux2d=True, nt=None, empty=False):
    kw = {}
    if cls == 'Template':
        kw['filename'] = TFILE
    elif not empty:
        kw['wave'] = symarr(it, 'wave', [NW], 'P')
        kw['flux'] = symarr(it, 'flux', [nt or NT, NW] if flux2d else [NW], 'PZ')
    if interpolate is not None:
        kw['interpolate'] = boolv(interpolate)
    o = run(it, lambda: it.instantiate(find_class(it, cls), [], kw, NODE))
    if not isinstance(o, Ref):
        raise AnchorError('%s() cannot be constructed: %s' % (cls, [r['exc'].name + ' at ' + r['where'] for r in it.top_raises][:3]))
    return o, kw


def run(it, th):
    try:
        return it.run(th)
    except Dead:
        return None


def callm(it, o, meth, **kw):
    m = run(it, lambda: it.getattr(o, meth, NODE))
    if m is None:
        raise AnchorError('%s does not exist' % meth)
    return run(it, lambda: it.call(m, [], kw, NODE))


def callf(it, name, **kw):
    f = find_func(it, name)
    return run(it, lambda: it.call(f, [], kw, NODE))


def mark(it, o, path='self'):
    w = World.__new__(World)
    w.it, w.o = it, o
    w.mark_self()


def _sed(label, fn, entry):
    @case(label)
    def f(prog):
        it = free_world(prog)
        return _finish(label, it, entry, fn(it))


def _finish(label, it, entry, r):
    ev0 = nr0 = 0
    if isinstance(r, tuple) and len(r) == 3 and r[0] == 'at':
        (ev0, nr0), r = r[1], r[2]
    return Case(label, it, entry, r, None, {}, ev0, nr0)


def _at(it, o, th):
    mark(it, o)
    it.pc = TRUE
    pos = (len(it.events), len(it.top_raises))
    return ('at', pos, th())


for _cls in ('SED', 'Template'):
    for _ip in (None, False, True):
        for _2d in ((True, False) if _cls == 'SED' else (True,)):
            _lab = '%s(%s%s)' % (_cls, {None: 'default', False: 'interpolate=False', True: 'interpolate=True'}[_ip], '' if _2d else ',1-D flux')
            _sed(_lab, lambda it, c=_cls, i=_ip, d=_2d: make_sed(it, c, i, d)[0], _cls + '.__init__')
            _sed(_lab + '.set_redshift', lambda it, c=_cls, i=_ip, d=_2d: (lambda o: _at(it, o, lambda: callm(it, o, 'set_redshift', redshift=sscalar('z1'))))
                 (make_sed(it, c, i, d)[0]), _cls + '.set_redshift')
            _sed(_lab + '.tofits', lambda it, c=_cls, i=_ip, d=_2d: (lambda o: _at(it, o, lambda: callm(it, o, 'tofits', filename=OUTNAME)))
                 (make_sed(it, c, i, d)[0]), _cls + '.tofits')

            def _rt(it, c=_cls, i=_ip, d=_2d):
                o = make_sed(it, c, i, d)[0]
                callm(it, o, 'tofits', filename=OUTNAME)
                it.pc = TRUE
                pos = (len(it.events), len(it.top_raises))
                return ('at', pos, run(it, lambda: it.instantiate(find_class(it, c), [], {'filename': OUTNAME}, NODE)))
            _sed(_lab + '.fromfits', _rt, _cls + '.fromfits')
_sed('SED().plot', lambda it: (lambda o: _at(it, o, lambda: callm(it, o, 'plot')))(make_sed(it)[0]), 'SED.plot')
_sed('SED().plot[wavelim]', lambda it: (lambda o: _at(it, o, lambda: callm(it, o, 'plot', wavelim=it.new(ListCell([sscalar('w0', 'P'), sscalar('w1', 'P')])))))
     (make_sed(it)[0]), 'SED.plot')
_sed('SED().plot[indx]', lambda it: (lambda o: _at(it, o, lambda: callm(it, o, 'plot', indx=num_index(0))))(make_sed(it)[0]), 'SED.plot')


def num_index(k):
    return scalar(num(k), 'i', True)


def _binimage(it):
    o = make_sed(it)[0]
    run(it, lambda: it.setattr(o, 'binimage', boolv(True), NODE))
    return o


_sed('SED(binimage).tofits', lambda it: (lambda o: _at(it, o, lambda: callm(it, o, 'tofits', filename=OUTNAME)))(_binimage(it)), 'SED.tofits')


def _bi_rt(it):
    o = _binimage(it)
    callm(it, o, 'tofits', filename=OUTNAME)
    it.pc = TRUE
    pos = (len(it.events), len(it.top_raises))
    return ('at', pos, run(it, lambda: it.instantiate(find_class(it, 'SED'), [], {'filename': OUTNAME}, NODE)))


_sed('SED(binimage).fromfits', _bi_rt, 'SED.fromfits')


# ---------------------------------------------------------------- responses
DATNAME = '<CWD>/resp.dat'
NR = dim('NRESP')
NBS = dim('NBASEL')


def basel_override(it, f, env, node):
    """read_basel of the shipped one-model files (its own parsing is decided by C26)"""
    fn = env.get('filename')
    nm = fn if isinstance(fn, str) else repr(fn)
    tag = 'sun' if 'lcbsun' in nm else ('vega' if 'lcbvega' in nm else nm)
    info = it.new(DictCell())
    w = it.new(ArrCell(from_fn([NBS], lambda i: inp('basel.%s.wave' % tag, 'P', i), 'f4')))
    f = it.new(ArrCell(from_fn([ONE, NBS], lambda i, j: inp('basel.%s.flux' % tag, 'PZ', j), 'f4')))
    return Tup([info, w, f])


def resp_world(prog, basel=True, **kw):
    it = free_world(prog, real_registry=True, overrides={'read_basel': basel_override} if basel else None, **kw)
    return it


def make_resp(it, how='arrays'):
    cls = find_class(it, 'Response')
    if how == 'arrays':
        kw = {'wave': symarr(it, 'rwave', [NR], 'P'), 'response': symarr(it, 'rresp', [NR], 'PZ')}
    elif how in ('intwave', 'intresp', 'double'):
        # integer wavelengths (or samples), and double precision arrays
        x, y = {'intwave': ('i', 'f4'), 'intresp': ('f8', 'i'), 'double': ('f8', 'f8')}[how]
        kw = {'wave': symarr(it, 'rwave', [NR], 'P', x), 'response': symarr(it, 'rresp', [NR], 'PZ', y)}
    elif how == 'dat':
        kw = {'filename': DATNAME}
    else:
        kw = {}
    o = run(it, lambda: it.instantiate(cls, [], kw, NODE))
    if not isinstance(o, Ref):
        raise AnchorError('Response() cannot be constructed: %s' % ([r['exc'].name + ' at ' + r['where'] for r in it.top_raises][:3]))
    return o


def _resp(label, fn, entry, basel=True):
    @case(label)
    def f(prog):
        it = resp_world(prog, basel)
        return _finish(label, it, entry, fn(it))


_resp('Response(arrays)', lambda it: make_resp(it, 'arrays'), 'Response.__init__')
_resp('Response(file)', lambda it: make_resp(it, 'dat'), 'Response.__init__')
_resp('Response()', lambda it: make_resp(it, 'none'), 'Response.__init__')


def _resp_then(how, meth, mkw):
    def g(it):
        o = make_resp(it, how)
        kw = mkw(it)
        return _at(it, o, lambda: callm(it, o, meth, **kw))
    return g


for _m in ('set_interp', 'set_lambda_eff', 'set_solar_magnitude', 'set_vega2ab', 'set_fwhm_limits', 'response_dtype'):
    _resp('Response(arrays).' + _m, _resp_then('arrays', _m, lambda it: {}), 'Response.' + _m)
_resp('Response(arrays).fromdat', _resp_then('arrays', 'fromdat', lambda it: {'filename': DATNAME}), 'Response.fromdat')
_resp('Response(arrays).fromdat[relative]', _resp_then('arrays', 'fromdat', lambda it: {'filename': SymStr(mk('in', 'fname', ''))}), 'Response.fromdat')
_resp('Response(arrays).tofits', _resp_then('arrays', 'tofits', lambda it: {'filename': OUTNAME}), 'Response.tofits')


def _resp_rt(it):
    o = make_resp(it, 'arrays')
    callm(it, o, 'tofits', filename=OUTNAME)
    it.pc = TRUE
    o2 = make_resp(it, 'none')
    pos = (len(it.events), len(it.top_raises))
    callm(it, o2, 'fromfits', filename=OUTNAME)
    return ('at', pos, o2)


_resp('Response.fromfits', _resp_rt, 'Response.fromfits')

PROJ = {
    'wave,flux 1-D': lambda it: {'wave': symarr(it, 'wave', [NW], 'P'), 'flux': symarr(it, 'flux', [NW], 'PZ')},
    'wave,flux 2-D': lambda it: {'wave': symarr(it, 'wave', [NW], 'P'), 'flux': symarr(it, 'flux', [NT, NW], 'PZ')},
    'sed': lambda it: {'sed': make_sed(it, 'SED')[0]},
    'sed 1-D': lambda it: {'sed': make_sed(it, 'SED', flux2d=False)[0]},
    'sed without interpolator': lambda it: {'sed': make_sed(it, 'SED', interpolate=False)[0]},
    'template': lambda it: {'sed': make_sed(it, 'Template', True)[0]},
}
for _k, _v in PROJ.items():
    _resp('Response(arrays).project[%s]' % _k, _resp_then('arrays', 'project', _v), 'Response.project')


# ---------------------------------------------------------------- registry
def reg(it):
    return run(it, lambda: it.call(find_class(it, 'ResponseDict'), [], {}, NODE))


_resp('ResponseDict().load_response', lambda it: (lambda r: callm(it, r, 'load_response', response=SymStr(mk('in', 'rname', ''))))(reg(it)), 'ResponseDict.load_response')
_resp('ResponseDict().load_response[reload]', lambda it: (lambda r: callm(it, r, 'load_response', response=SymStr(mk('in', 'rname', '')), reload=boolv(True)))(reg(it)),
      'ResponseDict.load_response')
_resp('all_responses()', lambda it: callf(it, 'all_responses'), 'all_responses')
_resp('all_responses(check_validity)', lambda it: callf(it, 'all_responses', check_validity=boolv(True)), 'all_responses')
_resp('all_responses(dir,check_validity)', lambda it: callf(it, 'all_responses', response_dir=SymStr(mk('in', 'rdir', '')), check_validity=boolv(True)), 'all_responses')


# ---------------------------------------------------------------- utilities
def _util(label, fn, entry):
    @case(label)
    def f(prog):
        it = free_world(prog)
        return _finish(label, it, entry, fn(it))


_util('sed_ab', lambda it: callf(it, 'sed_ab', wave=symarr(it, 'wave', [NW], 'P')), 'sed_ab')
_util('read_basel', lambda it: callf(it, 'read_basel', filename='<CWD>/basel.ori'), 'read_basel')
for _bk in BATCHES:
    for _iv in (True, False):
        _util('sdss_ab_correct[%s%s]' % (_bk.kind, ',ivar' if _iv else ''), lambda it, b=_bk, iv=_iv: callf(it, 'sdss_ab_correct', maggies=b.arr(it, 'maggies', num(5)),
              **({'ivar': b.arr(it, 'ivar', num(5), flags='PZ')} if iv else {})), 'sdss_ab_correct')
    for _er in (True, False):
        for _ex in (True, False):
            _util('sdss_asinh_to_maggies[%s%s%s]' % (_bk.kind, ',err' if _er else '', ',ext' if _ex else ''), lambda it, b=_bk, er=_er, ex=_ex: callf(
                it, 'sdss_asinh_to_maggies', mag=b.arr(it, 'mag', num(5)), **dict(([('mag_err', b.arr(it, 'magerr', num(5), flags='P'))] if er else []) + (
                    [('extinction', b.arr(it, 'ext', num(5)))] if ex else []))), 'sdss_asinh_to_maggies')
    _util('error_floor[%s]' % _bk.kind, lambda it, b=_bk: callf(it, 'error_floor', floor=symarr(it, 'floor', [NI], 'P'), maggies=b.arr(it, 'maggies', NI),
          ivar=b.arr(it, 'ivar', NI, flags='PZN')), 'error_floor')
    for _iv in (True, False):
        _util('maggies2flambda[%s%s]' % (_bk.kind, ',ivar' if _iv else ''), lambda it, b=_bk, iv=_iv: callf(it, 'maggies2flambda', maggies=b.arr(it, 'maggies', NI),
              responses=symlist(it, NI, 'RESP'), **({'ivar': b.arr(it, 'ivar', NI, flags='PZ')} if iv else {})), 'maggies2flambda')


def names(*pat):
    return [n for n in ORDER if not pat or any(p in n for p in pat)]


# configurations a case can also be evaluated in: 'Kcorrect.derived[many] {one template}'
VARIANTS = {'one output band': dict(sizes={'no': ONE}), 'one band': dict(sizes={'nb': ONE, 'no': ONE}),
            'one template': dict(sizes={'nt': ONE}), 'one realization': dict(sizes={'mc': ONE}), 'one input band': dict(sizes={'nb': ONE})}
_variant = {}


def build(prog, name):
    base, _, var = name.partition(' {')
    f = _cases.get(base)
    if f is None:
        return None
    _variant.clear()
    _variant.update(VARIANTS[var[:-1]] if var else {})
    try:
        c = f(prog)
    finally:
        _variant.clear()
    if c is not None:
        c.name = name
    return c
