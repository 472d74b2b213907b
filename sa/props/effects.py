"""Effect and typestate properties: C01, C16, C18, C29, C30."""
from .common import *
from .. import contexts

CALC = ('fit_coeffs', 'fit_coeffs_asinh', 'to_ab', 'reconstruct', 'reconstruct_out', 'kcorrect', 'absmag', 'absmag_mc', 'derived', 'derived_mc')


def feasible(e):
    return e.pc is not FALSE and e.data.get('cond', TRUE) is not FALSE


def per_case(fn, names=None):
    """one task per case"""
    def task(n):
        def f(out):
            c = out.case(n)
            if c is not None:
                fn(out, c)
        return f
    return [(n, task(n)) for n in (names or suite.names())]


# ---------------------------------------------------------------- C01
def c01_case(out, c):
    n = 0
    seen = set()
    for e in c.events:
        if e.kind not in ('mutate', 'ext-mutate'):
            continue
        n += 1
        org = e.data.get('origin') or ''
        if org.startswith('argument') or org.startswith('default value'):
            if org == 'argument templates' or org.startswith('argument templates.'):
                continue
            if not feasible(e):
                continue
            k = (e.data['where'], org)
            if k in seen:
                continue
            seen.add(k)
            out.decide('C01.no-write-to-caller-data', '%s: %s' % (c.name, org), 'the contents of the %s change here: %s' % (org, e.data['line']),
                       e.data['where'], e.pc.opq)
    for e in c.events:
        if e.kind == 'unmodelled':
            out.und('C01.effects-known', c.name, e.data['why'], e.data['where'])
            return
    if not seen:
        out.ok('C01.no-write-to-caller-data', '%s: %d writes, none to caller data' % (c.name, n), out.src(c.entry))


def c01(tier):
    t = per_case(c01_case)

    def wide(n):
        def f(out):
            contexts.INPUT_DT[0] = 'f8'
            try:
                c = out.case(n)
                if c is not None:
                    c.name += ' (double precision input)'
                    c01_case(out, c)
            finally:
                contexts.INPUT_DT[0] = 'f4'
        return f
    skip = ('()', 'fits', 'dat', 'Response', 'SED', 'Template', 'all_resp', 'read_basel')
    for n in suite.names():
        if not any(s in n for s in skip):
            t.append((n + ' (f8)', wide(n)))
    return t


# ---------------------------------------------------------------- C18
def c18_case(out, c):
    it = c.it
    opens = [e for e in it.events if e.kind == 'open' and e.data['what'] in ('fits', 'file') and feasible(e)]
    closes = [e for e in it.events if e.kind == 'close']
    for e in opens:
        inst = '%s: %s' % (c.name, e.data['line'])
        cid = e.data.get('cid')
        cell = it.heap.get(cid) if cid is not None else None
        normal = And(e.pc, c.pc)
        if normal is FALSE:
            continue
        if cell is None or not hasattr(cell, 'closed'):
            cs = FALSE
            for x in closes:
                if x.data.get('cid') == cid:
                    cs = Or(cs, x.pc)
            leak = restrict(Not(cs), normal)
        else:
            leak = restrict(Not(cell.closed), normal)
        if leak is FALSE:
            out.ok('C18.closed-before-return', inst, e.data['where'])
        else:
            out.decide('C18.closed-before-return', inst, 'the file opened here is still open when the operation returns%s'
                       % ('' if leak is TRUE else ' where ' + brief(leak, 200)), e.data['where'], leak.opq)
    for e in it.events:
        if e.kind in ('use-closed', 'fits-append', 'fits-get'):
            cl = e.data.get('closed', e.data.get('cond', FALSE))
            x = restrict(cl, e.pc)
            if x is FALSE:
                out.ok('C18.no-use-after-close', '%s: %s' % (c.name, e.data['line']), e.data['where'])
            else:
                out.decide('C18.no-use-after-close', '%s: %s' % (c.name, e.data['line']), 'used after it was closed', e.data['where'], x.opq)


def c18(tier):
    names = [n for n in suite.names() if any(s in n for s in ('fits', '()', 'Template', 'SED(', 'Response(', 'read_basel', 'all_resp', 'load_response', 'dat'))]
    return per_case(c18_case, names)


# ---------------------------------------------------------------- C29
C29_KINDS = {
    'missing-name': 'refers to a name that does not exist',
    'missing-attr': 'refers to an attribute that does not exist',
    'unbound': 'uses a variable that has not been assigned',
    'call-error': 'calls with parameters the target does not declare',
    'missing-field': 'reads a column or field that does not exist',
}


def c29_case(out, c):
    n = 0
    seen = set()
    for e in c.it.events:
        if e.kind in ('extname', 'call', 'extcall'):
            n += 1
        bad = e.kind in C29_KINDS
        what = C29_KINDS.get(e.kind)
        if e.kind == 'type-error' and (str(e.data.get('msg', '')).startswith('attribute') or 'non-callable' in str(e.data.get('msg', ''))
                                       or 'call of' in str(e.data.get('msg', ''))):
            bad, what = True, str(e.data['msg'])
        if e.kind == 'unpack-error':
            bad, what = True, 'unpacks %s values into %s names' % (e.data.get('got'), e.data.get('want'))
        if not bad:
            continue
        pc = And(e.pc, e.data.get('cond', TRUE))
        if pc is FALSE:
            continue
        caught = e.data.get('caught', ())
        if e.kind in ('missing-attr', 'missing-name', 'type-error') and any(x.split('.')[-1] in ('AttributeError', 'ImportError', 'ModuleNotFoundError', 'Exception', 'TypeError') for x in caught):
            continue
        if e.kind == 'missing-field' and any(x.split('.')[-1] in ('KeyError', 'Exception', 'ValueError', 'AttributeError') for x in caught):
            continue
        k = (e.kind, e.data['where'], str(e.data.get('name')))
        if k in seen:
            continue
        seen.add(k)
        det = e.data.get('name') or e.data.get('msg') or ''
        out.decide('C29.' + e.kind, '%s: %s' % (c.name, det), '%s: %s in "%s"' % (what, det, e.data['line']), e.data['where'], pc.opq)
    if not seen:
        out.ok('C29.paths', '%s: %d names, calls and attributes resolved' % (c.name, n), out.src(c.entry))


def c29_lint(out):
    from .. import lint
    a = lint.Analysis(out.prog)
    for rule, f in (('C29.names-defined', a.names), ('C29.library-names-exist', a.library), ('C29.own-attributes-exist', a.attrs), ('C29.own-calls-fit', a.calls)):
        n, bad = f()
        for where, inst, msg in bad:
            out.bad(rule, inst, msg, where)
        if not bad:
            out.ok(rule, '%d sites' % n, 'src/kcorrect')


def c29(tier):
    return [('whole program', c29_lint)] + per_case(c29_case)


# ---------------------------------------------------------------- C30
SEEDLIKE = ('seed', 'set_state', 'default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'get_state')
DRAWS = ('normal', 'standard_normal', 'randn')


def method_of(name):
    h = name.split('[')[0]
    return h.split('.')[-1] if '.' in h else ''


def c30_case(out, c):
    where = out.src(c.entry)
    meth = method_of(c.name)
    mc = meth in ('fit_coeffs', 'fit_coeffs_asinh') and 'mc' in c.name.split('[')[-1]
    seen = set()

    def bad(rule, e, msg):
        k = (rule, e.data['where'])
        if k in seen or e.pc is FALSE:
            return
        seen.add(k)
        out.decide('C30.' + rule, '%s: %s' % (c.name, e.data['line']), msg, e.data['where'], e.pc.opq)
    for e in c.it.events:
        if e.kind == 'random':
            what = str(e.data['what']).split('.')[-1]
            if what in SEEDLIKE:
                bad('global-generator-only', e, 'uses %s instead of drawing from the global generator the user controls' % what)
            elif not mc:
                bad('random-only-in-monte-carlo', e, 'random numbers are drawn without a request for Monte Carlo')
            else:
                out.ok('C30.global-generator-only', '%s: %s' % (c.name, e.data['line']), e.data['where'])
        elif e.kind == 'extcall' or e.kind == 'extname':
            n = str(e.data.get('name'))
            if n.startswith('numpy.random.') and n.split('.')[-1] in SEEDLIKE:
                bad('global-generator-only', e, 'uses %s instead of drawing from the global generator the user controls' % n)
            elif n.startswith('random.') and n.split('.')[-1] != 'random' or n in ('random.random', 'secrets.token_bytes', 'os.urandom'):
                bad('global-generator-only', e, 'uses %s, which the NumPy seed does not control' % n)
            elif n in ('numpy.seterr', 'numpy.set_printoptions', 'warnings.simplefilter', 'warnings.filterwarnings', 'numpy.seterrcall', 'os.chdir', 'os.putenv', 'locale.setlocale',
                       'astropy.cosmology.default_cosmology.set', 'sys.setrecursionlimit', 'logging.disable', 'multiprocessing.set_start_method') and e.kind == 'extcall':
                ctxs = any('catch_warnings' in x or 'errstate' in x for x in e.data.get('caught', ()))
                if not (n.startswith('warnings') and getattr(c.it, 'in_catch', False)) and not ctxs:
                    bad('no-global-settings', e, '%s changes a global setting' % n)
            elif e.kind == 'extcall' and n in NONDET:
                bad('no-outside-state', e, '%s makes the result depend on more than inputs and object state' % n)
        elif e.kind in ('nondet',):
            bad('no-outside-state', e, '%s makes the result depend on more than inputs and object state' % e.data.get('what'))
        elif e.kind in ('global-effect', 'ext-setattr'):
            bad('no-global-settings', e, '%s changes a global setting' % (e.data.get('what') or e.data.get('name')))
    if meth in CALC and c.world is not None:
        pre = getattr(c, 'pre', None)
        if pre is not None:
            m = same_state(c.it, pre, c.it.heap, c.world.o, c.world.o)
            if m == '?':
                out.und('C30.object-unchanged', c.name, 'contents of the object cannot be compared', where)
            else:
                sets = [e for e in c.events if e.kind in ('setattr', 'mutate') and e.pc is not FALSE and (e.kind == 'setattr' or str(e.data.get('origin', '')).startswith('state'))]
                out.decide('C30.object-unchanged', c.name, None if m is None else 'the call changes the object: %s' % m, sets[0].data['where'] if m and sets else where,
                           c.pc.opq)
    if not seen:
        out.ok('C30.effects', '%s: %d effects' % (c.name, len(c.events)), where)


NONDET = {'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'time.localtime', 'time.ctime', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow',
          'os.getpid', 'os.getcwd', 'os.getenv', 'os.environ.get', 'uuid.uuid4', 'os.cpu_count', 'os.getloadavg', 'platform.node', 'socket.gethostname', 'id', 'builtins.id', 'builtins.hash'}


CHAIN = {
    'fit_coeffs': ('redshift', 'maggies', 'ivar'),
    'reconstruct': ('redshift', 'coeffs', 'band_shift'),
    'reconstruct_out': ('redshift', 'coeffs', 'band_shift'),
    'kcorrect': ('redshift', 'coeffs', 'band_shift'),
    'absmag': ('maggies', 'ivar', 'redshift', 'coeffs', 'band_shift', 'distance'),
    'derived': ('redshift', 'coeffs', 'band_shift', 'distance'),
    'to_ab': ('maggies', 'ivar'),
    'absmag_mc': ('maggies_mc', 'ivar', 'redshift', 'coeffs_mc', 'band_shift'),
    'derived_mc': ('redshift', 'coeffs_mc', 'band_shift'),
}
EXTRAS = {'absmag': ('reconstruct', 'limit', 'kcorrect'), 'absmag_mc': ('reconstruct', 'kcorrect')}


def call_chain(out, cls, o, meths, b, lab):
    """results of the last of several calls on one object; inputs of the earlier calls have other names"""
    from ..suite import gal, fresh, Case
    w = fresh(out.prog, cls, out=o, abcorrect=True, tables='abstract')
    it = w.it
    r = None
    for k, (m, bk) in enumerate(meths):
        last = k == len(meths) - 1
        contexts.PREFIX[0] = '' if last else 'earlier%d.' % k
        try:
            bb = [x for x in BATCHES if x.kind == bk][0]
            kw = gal(w, bb, *CHAIN[m])
            for e in EXTRAS.get(m, ()):
                kw[e] = boolv(True)
            ev0, nr0 = len(it.events), len(it.top_raises)
            it.pc = TRUE
            r = w.call(m, **kw)
        finally:
            contexts.PREFIX[0] = ''
    c = Case(lab, it, '%s.%s' % (cls, meths[-1][0]), r, w, kw, ev0, nr0)
    out.ncases += 1
    out.note(it)
    return c


def c30_history(cls, o, m, b, before):
    lab = '%s%s: %s[%s] after %s' % (cls, '+out' if o else '', m, b, ', '.join('%s[%s]' % x for x in before))

    def f(out):
        where = out.src('%s.%s' % (cls, m))
        c0 = call_chain(out, cls, o, [(m, b)], b, lab)
        c1 = call_chain(out, cls, o, list(before) + [(m, b)], b, lab)
        if (c0.result is None) != (c1.result is None):
            out.bad('C30.same-result-after-other-calls', lab, 'returns only in one of the two histories', where)
            return
        if c0.result is None:
            out.und('C30.same-result-after-other-calls', lab, 'never returns', where)
            return
        d0, d1 = whole(c0.it, c0.result, c0.pc), whole(c1.it, c1.result, c1.pc)
        if set(d0) != set(d1):
            out.decide('C30.same-result-after-other-calls', lab, 'returns other values: %s' % sorted(set(d0) ^ set(d1)), where,
                       c1.pc.opq or vague(c0.it, c0.result, c0.pc) or vague(c1.it, c1.result, c1.pc))
            return
        for p in sorted(d0):
            a = merged(c0.it, d0[p])
            inst = lab + (' ' + p if p else '')
            if a is None:
                continue
            check(out, 'C30.same-result-after-other-calls', inst, c1.it, d1[p], a, c1.pc, where)
    return f


def c30(tier):
    t = per_case(c30_case)
    allm = ('fit_coeffs', 'to_ab', 'reconstruct', 'reconstruct_out', 'kcorrect', 'absmag', 'derived', 'absmag_mc', 'derived_mc')
    for o in (None, True):
        for m in allm:
            for b in ('many', 'scalar'):
                if tier == 'quick' and (o is None) != (b == 'scalar'):
                    continue
                t.append(('history Kcorrect %s %s %s' % (o, m, b), c30_history('Kcorrect', o, m, b, [(x, 'many' if b == 'scalar' else 'scalar') for x in allm])))
                if tier != 'quick':
                    t.append(('history2 Kcorrect %s %s %s' % (o, m, b), c30_history('Kcorrect', o, m, b, [(x, b) for x in allm])))
                    t.append(('history3 Kcorrect %s %s %s' % (o, m, b), c30_history('Kcorrect', o, m, b, [(m, b)])))
    for cls in ('KcorrectSDSS', 'KcorrectGST'):
        for m in ('to_ab', 'fit_coeffs'):
            t.append(('history %s %s' % (cls, m), c30_history(cls, None, m, 'scalar', [('to_ab', 'many'), ('to_ab', 'scalar')])))
    return t
