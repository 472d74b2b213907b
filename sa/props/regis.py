"""C16: the registry of responses."""
from .common import *
from ..suite import *
from .resp import Ref_, sed_attrs, check_opt, check_interp, NUMBERS, is_none

DIR = '<PKG>/data/responses/'
FAULTS = {'missing': frozenset(), 'missing,malformed': frozenset(['table']), 'missing,malformed,too few samples': frozenset(['table', 'spline'])}


def contents(it, heap, r):
    """{name: (condition, value)} of the registry in a heap, or None"""
    c = heap.get(r.cid)
    if isinstance(c, InstCell):
        d = c.attrs.get('#dict')
        c = heap.get(d.cid) if isinstance(d, Ref) else None
    if not isinstance(c, DictCell):
        return None
    res = {}
    for k, v in c.items:
        cond = TRUE
        while isinstance(k, CondItem):
            cond, k = And(cond, k.c), k.v
        if not isinstance(k, str):
            return None
        absent = Or(FALSE, *[c for c, x in cases_of(it, v) if x is UNBOUND])
        cond = And(cond, Not(absent))
        v = cases_value(it, v)
        if k in res:
            c0, v0 = res[k]
            v = Phi(cond, v, v0)
            cond = Or(cond, c0)
        res[k] = (cond, v)
    return res


def cases_value(it, v):
    """the value where there is one"""
    if isinstance(v, Phi):
        a, b = cases_value(it, v.a), cases_value(it, v.b)
        return b if a is UNBOUND else a if b is UNBOUND else Phi(v.c, a, b)
    return v


class State(object):
    def __init__(self, out, faults='missing', names=(), template=False):
        self.out = out
        self.it = it = resp_world(out.prog)
        if template:
            template_file(it, True)
        self.r = reg(it)
        if not isinstance(self.r, Ref):
            raise AnchorError('ResponseDict() gives no object')
        it.faults = frozenset()
        for n in names:
            self.load(n)
        it.faults = FAULTS[faults]

    def load(self, name, **kw):
        return callm(self.it, self.r, 'load_response', response=name, **{k: boolv(v) for k, v in kw.items()})

    def now(self):
        c = contents(self.it, self.it.heap, self.r)
        if c is None:
            raise AnchorError('the contents of the registry are unknown')
        return c

    def junk(self, name, tag):
        """mark an entry, to tell it from a fresh one"""
        it = self.it
        for c, x in cases_of(it, self.now()[name][1]):
            if isinstance(x, Ref):
                run(it, lambda: it.setattr(x, 'wave', symarr(it, 'junk' + tag, [dim('NJUNK')], 'P'), NODE))

    def done(self):
        self.out.note(self.it)
        self.out.ncases += 1


def entry_ok(out, st, rule, inst, name, where, cond, path=None):
    """the entry is the complete response of the file of that name"""
    it = st.it
    now = st.now()
    if name not in now:
        out.decide(rule, inst, '%s is not in the registry after it was loaded' % name, where, cond.opq)
        return
    c, v = now[name]
    if not check_terms(out, rule + '-present', inst, And(cond, c), cond, TRUE, where):
        return
    spec = Ref_(it)
    t = spec('read', path or DIR + name + '.dat')
    t = spec('curve', *t.items)
    w, r = t.items
    cls = find_class(it, 'Response')
    n = (len(it.events), len(it.top_raises))
    pc, it.pc = it.pc, TRUE
    fl, it.faults = it.faults, frozenset()
    new = run(it, lambda: it.instantiate(cls, [], {'wave': w, 'response': r}, NODE))
    it.pc, it.faults = pc, fl
    if not isinstance(new, Ref):
        out.und(rule, inst, 'a response cannot be made from the samples of the file', where)
        return
    b = sed_attrs(it, new)
    for cc, x in cases_of(it, v, cond):
        if not (isinstance(x, Ref) and isinstance(it.heap.get(x.cid), InstCell)):
            out.decide(rule, inst, 'the entry is %s, not a response' % kind_of(it, x), where, cc.opq or isinstance(x, Opq))
            return
        at = sed_attrs(it, x)
        for k in ('wave', 'response'):
            check(out, rule, '%s %s' % (inst, k), it, at.get(k, UNBOUND), it.arr(b[k]), cc, where)
        check_interp(out, rule, inst + ' interp', it, at.get('interp', UNBOUND), b['interp'], cc, where)
        for k in NUMBERS:
            check_opt(out, rule, '%s %s' % (inst, k), it, at.get(k, UNBOUND), b[k], cc, where)


def unchanged(out, st, rule, inst, before, heap0, heap1, cond, where, skip=()):
    """the registry in heap1 equals the one in heap0 wherever cond holds"""
    it = st.it
    after = contents(it, heap1, st.r)
    if after is None:
        out.und(rule, inst, 'the contents of the registry are unknown', where)
        return
    for k in sorted(set(before) | set(after)):
        if k in skip:
            continue
        c0, v0 = before.get(k, (FALSE, None))
        c1, v1 = after.get(k, (FALSE, None))
        r = cmp_body(And(cond, c1), And(cond, c0), [], [], cond)
        if not r:
            msg = '%s is %s the registry' % (k, 'left in' if k not in before else 'dropped from')
            (out.bad if r.definite else out.und)(rule, '%s %s' % (inst, k), msg, where)
            continue
        if c0 is FALSE or c1 is FALSE:
            out.ok(rule, '%s %s' % (inst, k), where)
            continue
        m = None
        for d, x in cases_of(it, v1, And(cond, c1)):
            for e, y in cases_of(it, v0, d):
                if not (isinstance(x, Ref) and isinstance(y, Ref)):
                    m = m or '?'
                elif x.cid != y.cid:
                    m = 'the entry of %s is another object' % k
                else:
                    q = same_state(it, heap0, heap1, x, y)
                    if q:
                        m = '?' if q == '?' else 'the entry of %s changes: %s' % (k, q)
        if m is None:
            out.ok(rule, '%s %s' % (inst, k), where)
        elif m == '?':
            out.und(rule, '%s %s' % (inst, k), 'whether the entry changes is unknown', where)
        else:
            out.bad(rule, '%s %s' % (inst, k), m, where)


def opens(evs, name=None):
    return [e for e in evs if e.kind == 'open' and (name is None or e.data.get('name') == name)]


LW = 'ResponseDict.load_response'


def c16_load(faults):
    def f(out):
        st = State(out, faults)
        where = out.src(LW)
        st.load('aa')
        st.done()
        if st.it.pc is FALSE:
            out.bad('C16.loads', 'aa', 'never succeeds', where)
            return
        out.ok('C16.loads', 'aa (%s)' % faults, where)
        entry_ok(out, st, 'C16.complete', 'aa (%s)' % faults, 'aa', where, st.it.pc)
        extra = sorted(set(st.now()) - {'aa'})
        out.decide('C16.only-the-name', 'aa (%s)' % faults, 'loading aa adds %s' % extra if extra else None, where)
    return f


def c16_again(kw, what, names=('aa', 'bb')):
    """a name already present"""
    def f(out):
        st = State(out, 'missing,malformed', names)
        tag = '' if names == ('aa', 'bb') else ' (%s present)' % ','.join(names)
        it = st.it
        it.pc = TRUE
        st.junk('aa', 'A')
        before, h0 = st.now(), dict(it.heap)
        n, m = len(it.events), len(it.top_raises)
        st.load('aa', **kw)
        st.done()
        where = out.src(LW)
        ops = opens(it.events[n:])
        if not what:
            out.decide('C16.idempotent', 'aa loaded again%s' % (kw or '') + tag, 'opens %s' % ops[0].data.get('name') if ops else None, where)
            unchanged(out, st, 'C16.idempotent', 'aa loaded again%s' % (kw or '') + tag, before, h0, it.heap, it.pc, where)
            rs = it.top_raises[m:]
            out.decide('C16.idempotent', 'aa loaded again%s raises' % (kw or '') + tag, 'raises %s at %s' % (rs[0]['exc'].name, rs[0]['where']) if rs else None, where,
                       bool(rs) and rs[0]['pc'].opq)
        else:
            good = [e for e in ops if e.data.get('name') == DIR + 'aa.dat']
            out.decide('C16.reload', 'aa reloaded' + tag, None if good else 'does not read the file again', where)
            if it.pc is not FALSE:
                entry_ok(out, st, 'C16.reload', 'aa reloaded' + tag, 'aa', where, it.pc)
            unchanged(out, st, 'C16.reload', 'the others while aa is reloaded' + tag, before, h0, it.heap, it.pc, where, skip=('aa',))
    return f


def c16_fail(faults, present, kw):
    """every way of failing leaves the registry as it was"""
    def f(out):
        st = State(out, faults, ('aa', 'bb') if present else ('bb',))
        it = st.it
        it.pc = TRUE
        if present:
            st.junk('aa', 'A')
        before, h0 = st.now(), dict(it.heap)
        m = len(it.top_raises)
        st.load('aa', **kw)
        st.done()
        where = out.src(LW)
        rs = it.top_raises[m:]
        inst = 'aa %s%s (%s)' % ('present' if present else 'new', ' reload' if kw else '', faults)
        if not rs:
            out.ok('C16.failure', inst + ' no failure', where)
        for k, r in enumerate(rs):
            unchanged(out, st, 'C16.failure', '%s %s at %s' % (inst, r['exc'].name, r['func']), before, h0, r['heap'], r['pc'], r['where'])
    return f


def c16_shared(out):
    st = State(out)
    it = st.it
    where = out.src('ResponseDict')
    st.load('aa')
    r2 = reg(it)
    out.decide('C16.shared', 'ResponseDict() twice', None if isinstance(r2, Ref) and r2.cid == st.r.cid else 'is another object', where)
    r3 = reg(it)
    now = contents(it, it.heap, r3) if isinstance(r3, Ref) else None
    out.decide('C16.shared', 'ResponseDict() keeps entries', None if now is not None and 'aa' in now else 'the entries are gone', where)
    st.done()


def lst(it, *n):
    return it.new(ListCell(list(n)))


def band_args(it):
    return dict(responses=lst(it, 'aa', 'bb'), responses_out=lst(it, 'cc', 'dd'), responses_map=lst(it, 'aa', 'bb'),
                redshift_range=lst(it, sscalar('zlo'), sscalar('zhi')), nredshift=scalar(NZ, 'i', True))


def use_kcorrect(it):
    return run(it, lambda: it.instantiate(find_class(it, 'Kcorrect'), [], band_args(it), NODE)), ('aa', 'bb', 'cc', 'dd')


def use_fitter(it):
    kw = dict(responses=lst(it, 'aa', 'bb'), redshift_range=lst(it, sscalar('zlo'), sscalar('zhi')), nredshift=scalar(NZ, 'i', True))
    kw['templates'] = run(it, lambda: it.instantiate(find_class(it, 'Template'), [], {'filename': TFILE}, NODE))
    o = run(it, lambda: it.instantiate(find_class(it, 'Fitter'), [], kw, NODE))
    if isinstance(o, Ref):
        callm(it, o, 'set_Amatrix')
    return o, ('aa', 'bb')


def use_flambda(it):
    return callf(it, 'maggies2flambda', maggies=symarr(it, 'maggies', [num(2)]), responses=lst(it, 'aa', 'bb')), ('aa', 'bb')


USERS = {'Kcorrect': (use_kcorrect, 'Kcorrect.__init__'), 'Fitter': (use_fitter, 'Fitter._calc_Amatrix'), 'maggies2flambda': (use_flambda, 'maggies2flambda')}


def c16_user(name, preload):
    """other parts of the program load what they need, once, into the same registry"""
    use, entry = USERS[name]

    def f(out):
        st = State(out, 'missing', preload, template=True)
        it = st.it
        it.pc = TRUE
        before, h0 = st.now(), dict(it.heap)
        n, m = len(it.events), len(it.top_raises)
        v, names = use(it)
        st.done()
        where = out.src(entry)
        inst = name + (' with %s loaded' % ','.join(preload) if preload else '')
        if it.pc is FALSE or v is None:
            out.bad('C16.users', inst, 'never succeeds: %s' % [(r['exc'].name, r['where']) for r in it.top_raises[m:]][:2], where)
            return
        rs = [r for r in it.top_raises[m:] if r['exc'].name in ('KeyError', 'AttributeError', 'TypeError')]
        out.decide('C16.users', inst + ' finds its responses', 'fails with %s at %s' % (rs[0]['exc'].name, rs[0]['where']) if rs else None, where,
                   bool(rs) and rs[0]['pc'].opq)
        regs = [c for c, x in it.heap.items() if isinstance(x, InstCell) and x.cls is it.heap[st.r.cid].cls]
        out.decide('C16.shared', inst, None if len(regs) == 1 else 'uses %d registries' % len(regs), where)
        again = [e for e in opens(it.events[n:]) if e.data.get('name') in [DIR + k + '.dat' for k in preload]]
        out.decide('C16.idempotent', inst, 'reads %s again' % again[0].data.get('name') if again else None, where)
        unchanged(out, st, 'C16.users-keep', inst, before, h0, it.heap, it.pc, where, skip=[k for k in names if k not in preload])
        for k in names:
            if k not in preload:
                entry_ok(out, st, 'C16.users-complete', '%s %s' % (inst, k), k, where, it.pc)
    return f


LIST = ('aa.dat', 'readme.txt', 'bb.dat', 'bb.dat.bak', 'cc.par', 'x.y.dat')
RDIR = '<CWD>/filters'


def names_in(it, v):
    """{name: condition} of a list of names"""
    res = {}
    for c, x in cases_of(it, v):
        if not (isinstance(x, Ref) and isinstance(it.heap.get(x.cid), ListCell)):
            return None
        for e in it.heap[x.cid].items:
            cc, y = c, e
            while isinstance(y, CondItem):
                cc, y = And(cc, y.c), y.v
            if not isinstance(y, str):
                return None
            res[y] = Or(res.get(y, FALSE), cc)
    return res


def c16_list(valid, faults, preload=()):
    def f(out):
        st = State(out, faults, preload)
        it = st.it
        it.pc = TRUE
        it.listing = LIST
        before, h0 = st.now(), dict(it.heap)
        n, m = len(it.events), len(it.top_raises)
        v = callf(it, 'all_responses', response_dir=RDIR, **({'check_validity': boolv(True)} if valid else {}))
        st.done()
        where = out.src('all_responses')
        inst = 'all_responses(%s) %s%s' % ('check_validity' if valid else '', faults, ' %s loaded' % ','.join(preload) if preload else '')
        if v is None:
            out.bad('C16.listing', inst, 'never returns', where)
            return
        got = names_in(it, v)
        if got is None:
            out.und('C16.listing', inst, 'the list of names is unknown', where)
            return
        for e in LIST:
            k = e[:-4] if e.endswith('.dat') else None
            p = atomP(raw_atom('str', RDIR + '/' + e))
            want = flag(raw_atom('path_isfile', p))
            if k is None:
                continue
            if valid:
                want = And(want, flag(raw_atom('path_exists', p)))
                if 'table' in it.faults:
                    want = And(want, Not(flag(raw_atom('badtable', p))))
                if 'spline' in it.faults:
                    want = And(want, Not(flag(raw_atom('badspline', mk('nrows', p), 'cubic'))))
            check_terms(out, 'C16.listing', '%s %s' % (inst, k), got.get(k, FALSE), want, it.pc, where)
        odd = sorted(set(got) - {e[:-4] for e in LIST if e.endswith('.dat')})
        out.decide('C16.listing', inst + ' only responses', 'lists %s' % odd if odd else None, where)
        ks = [e[:-4] for e in LIST if e.endswith('.dat')]
        unchanged(out, st, 'C16.listing-keeps', inst, before, h0, it.heap, it.pc, where, skip=[k for k in ks if k not in preload] if valid else ())
        if valid:
            now = st.now()
            for k in ks:
                if k in preload or k not in now:
                    continue
                c = now[k][0]
                check_terms(out, 'C16.only-valid-registered', '%s %s' % (inst, k), And(it.pc, c, Not(got.get(k, FALSE))), FALSE, TRUE, where)
                if faults == 'missing':
                    entry_ok(out, st, 'C16.listing-complete', '%s %s' % (inst, k), k, where, And(it.pc, c), RDIR + '/' + k + '.dat')
    return f


def c16(tier):
    t = [('C16 load %s' % k, c16_load(k)) for k in FAULTS]
    t += [('C16 again', c16_again({}, False)), ('C16 again reload=False', c16_again({'reload': False}, False)), ('C16 reload', c16_again({'reload': True}, True))]
    for names in (('aa',), ('bb', 'aa'), ('bb', 'aa', 'cc')):
        for kw in ({}, {'reload': False}, {'reload': True}):
            t.append(('C16 %s %s' % (kw or 'again', names), c16_again(kw, kw == {'reload': True}, names)))
    for fl in FAULTS:
        for present in (False, True):
            for kw in ({}, {'reload': True}):
                t.append(('C16 fail %s %s %s' % (fl, present, kw), c16_fail(fl, present, kw)))
    t.append(('C16 shared', c16_shared))
    for u in USERS:
        for pre in ((), ('aa',), ('aa', 'bb')):
            t.append(('C16 %s %s' % (u, pre), c16_user(u, pre)))
    for valid in (False, True):
        for fl in FAULTS:
            for pre in ((), ('aa',)):
                t.append(('C16 list %s %s %s' % (valid, fl, pre), c16_list(valid, fl, pre)))
    return t
