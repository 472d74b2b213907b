"""Analysis contexts: abstract instances and abstract arguments for the public entry points."""
from .interp import *
from .handlers import *
from .terms import *
from .arrays import *

N = dim('N')            # galaxies
NI = dim('NB')          # input bands
NO = dim('NOUT')        # output bands
NT = dim('NT')          # templates
NW = dim('NW')          # template wavelength samples
NZ = dim('NZ')          # redshift grid points
MC = dim('MC')          # Monte Carlo draws
TFILE = '<PKG>/data/templates/kcorrect-default-v4.fits'
NODE = ast.parse('f()').body[0].value
FIN = 'PZN'             # finite real
ANY = 'PZNX'            # real or NaN


class AnchorError(Exception):
    """a public construct the property speaks about has vanished"""


def symlist(it, n, name):
    LISTDIM[name] = n
    r = it.new(SymListCell(n, lambda k: SymStr(mk('in', name, '', k)), name))
    it.heap[r.cid].origin = None
    return r


def symarr(it, name, dims, flags=FIN, dt='f4', origin='arg'):
    a = from_fn(dims, lambda *ix: inp(name, flags, *ix), dt)
    if not dims:
        return a
    return it.new(ArrCell(a, ('argument ' + name) if origin == 'arg' else origin))


def sscalar(name, flags=FIN, dt='f8', py=True):
    return Arr((), inp(PREFIX[0] + name, flags), dt, py)


def template_file(it, m50=None, name=TFILE, origin='tfile', NT=NT):
    """file system entry of a template file"""
    def im(nm, dims, flags=FIN):
        return Lib('fhdu', name=nm, type='image', data=from_fn(dims, lambda *ix: inp(origin + '.' + nm, flags, *ix), 'f4'))
    rec = Lib('frec', n=num(1), fields=(
        ('wave', 'f4', (NW,), from_fn([ONE, NW], lambda i, j: inp(origin + '.wave', 'P', j), 'f4')),
        ('flux', 'f4', (NT, NW), from_fn([ONE, NT, NW], lambda i, j, k: inp(origin + '.flux', 'PZ', j, k), 'f4'))))
    hd = [Lib('fhdu', name='PRIMARY', type='primary', data=None), Lib('fhdu', name='FLUX', type='table', data=rec),
          im('INTSFH', [NT], 'PZ'), im('MREMAIN', [NT], 'PZ'), im('METS', [NT], 'PZ'), im('M300', [NT], 'PZ'), im('M1000', [NT], 'PZ')]
    if m50 is None:
        hd.append(CondItem(flag(raw_atom('fileflag', origin + '.hasM50')), im('M50', [NT], 'PZ')))
    elif m50:
        hd.append(im('M50', [NT], 'PZ'))
    LibModel().fs_write(it, name, tuple(hd))


def registry_override(it, cls, args, kw, node):
    return Lib('registry')


class World(object):
    """one interpreter with a constructed Kcorrect-like instance"""

    def __init__(self, prog, cls='Kcorrect', out=None, abcorrect='opaque', real_registry=False, mode='off', m50=None, overrides=None,
                 mapped=None, assume=None, tables='real', symresp=False, sizes=None, **ctor):
        ov = dict(overrides or {})
        if not real_registry:
            ov['class:ResponseDict'] = registry_override
        if assume is None and out:
            assume = {('listeq', 'RESP', 'RESPOUT'): False, ('listeq', 'RESPB', 'ROUTB'): False, 'listeq?': False}      # the output bands differ from the input bands
        self.it = it = Interp(prog, LibModel(), ov, assume)
        # lengths of the band, output band, template and realization axes
        sz = sizes or {}
        self.mc = sz.get('mc', MC)
        NI, NO, NT = sz.get('nb', dim('NB')), sz.get('no', dim('NOUT')), sz.get('nt', dim('NT'))
        template_file(it, m50, NT=NT)
        self.prog = prog
        self.clsname = cls
        self.cls = find_class(it, cls)
        kw = dict(ctor)
        self.nb = {'KcorrectSDSS': num(5), 'KcorrectGST': num(10)}.get(cls, NI)
        self.ntempl = NT
        if cls == 'Kcorrect' or cls == 'Fitter' or symresp:
            self.nb = NI
            self.resp = symlist(it, NI, 'RESP')
            kw['responses'] = self.resp
        self.out = out
        if out:
            kw['responses_out'] = symlist(it, NO, 'RESPOUT')
            kw['responses_map'] = symlist(it, NO, 'RESPMAP')
        if abcorrect is not None and abcorrect != 'default':
            kw['abcorrect'] = boolv(abcorrect is True)
        if cls == 'Fitter':
            kw['templates'] = self.run(lambda: it.instantiate(find_class(it, 'Template'), [], {'filename': TFILE}, NODE))
            if kw['templates'] is None:
                raise AnchorError('Template() cannot be constructed')
        if 'redshift_range' not in kw:
            kw['redshift_range'] = it.new(ListCell([sscalar('zlo'), sscalar('zhi')]))
        if 'nredshift' not in kw:
            kw['nredshift'] = scalar(NZ, 'i', True)
        self.kw = kw
        self.o = self.run(lambda: it.instantiate(self.cls, [], kw, NODE))
        if not isinstance(self.o, Ref):
            raise AnchorError('%s() cannot be constructed: %s' % (cls, [r['exc'].name + ' at ' + r['where'] for r in it.top_raises][:3]))
        if cls == 'Fitter':
            self.call('set_Amatrix')
        # start recording afresh
        self.ctor_events, it.events = it.events, []
        self.ctor_raises, it.top_raises = it.top_raises, []
        self.ctor_pc = it.pc
        # construction succeeded
        it.pc = TRUE
        if tables == 'abstract':
            self.abstract_tables()
        self.mark_self()

    def abstract_tables(self):
        """replace the contents of the design matrices by symbolic tables (their construction is decided by C14)"""
        it = self.it
        at = it.heap[self.o.cid].attrs
        nb = len_of(it, at.get('responses'))
        no = len_of(it, at.get('responses_out'))

        def table(v, name, n):
            vs = []

            def leaves(x):
                if isinstance(x, Phi):
                    leaves(x.a)
                    leaves(x.b)
                else:
                    vs.append(x)
            leaves(v)
            if n is None or not vs or any(not (isinstance(x, Lib) and x.kind == 'interp') for x in vs):
                return v
            x0 = vs[0]
            if any(x.d['axis'] != x0.d['axis'] or x.d['opts'] != x0.d['opts'] or arr_eq(x.d['x'], x0.d['x'], TRUE) is not None for x in vs[1:]):
                return v
            for x in vs:
                ax = x.d['y'].axes
                if len(ax) != 3 or any(a.sel for a in ax) or not all(eq(a.dim, d) for a, d in zip(ax, (NZ, n, self.ntempl))):
                    return v
            return Lib('interp', **dict(x0.d, y=from_fn([NZ, n, self.ntempl], lambda i, j, k: inp(name, FIN, i, j, k), 'f4')))
        same = at.get('AmatrixOut') is at.get('Amatrix')
        a = table(at.get('Amatrix'), 'A', nb)
        o = a if same else table(at.get('AmatrixOut'), 'AOUT', no)
        if 'Amatrix' in at:
            at['Amatrix'] = a
        if 'AmatrixOut' in at:
            at['AmatrixOut'] = o

    def run(self, th):
        try:
            return self.it.run(th)
        except Dead:
            return None

    def attr(self, name, o=None):
        v = self.run(lambda: self.it.getattr(o or self.o, name, NODE))
        return v

    def call(self, name, *args, **kw):
        it = self.it
        m = self.attr(name)
        if m is None:
            raise AnchorError('%s.%s does not exist' % (self.clsname, name))
        return self.run(lambda: it.call(m, list(args), kw, NODE))

    def mark_self(self):
        """label the objects reachable from the instance"""
        it = self.it
        seen = set()

        def go(v, path, d=0):
            if isinstance(v, Ref) and v.cid not in seen and d < 4:
                seen.add(v.cid)
                c = it.heap.get(v.cid)
                if c is None:
                    return
                if getattr(c, 'origin', None) is None:
                    try:
                        c.origin = 'state ' + path
                    except AttributeError:
                        pass
                if isinstance(c, InstCell):
                    for k, x in c.attrs.items():
                        go(x, path + '.' + k, d + 1)
            elif isinstance(v, Tup):
                for x in v.items:
                    go(x, path + '[]', d + 1)
            elif isinstance(v, Phi):
                go(v.a, path, d)
                go(v.b, path, d)
        go(self.o, 'self')


def find_class(it, name):
    for m in it.mods.values():
        v = m.env.get(name)
        if isinstance(v, ClassV):
            return v
    raise AnchorError('class %s does not exist' % name)


def find_func(it, name):
    for m in it.mods.values():
        v = m.env.get(name)
        if isinstance(v, FuncV):
            return v
    raise AnchorError('function %s() does not exist' % name)


# galaxy batch kinds
INPUT_DT = ['f4']      # kind of the arrays callers pass
PREFIX = ['']          # prepended to the names of inputs (to tell two calls apart)


class Batch(object):
    def __init__(self, kind):
        self.kind = kind            # 'scalar', 'one', 'many'
        self.n = {'scalar': None, 'one': ONE, 'many': N}[kind]

    def dims(self, *rest):
        return ([] if self.n is None else [self.n]) + list(rest)

    def arr(self, it, name, *rest, **kw):
        """per-galaxy quantity; element terms always carry the galaxy index"""
        flags = kw.get('flags', FIN)
        dt = kw.get('dt', INPUT_DT[0])
        d = self.dims(*rest)
        k = 0 if self.n is None else 1
        name = PREFIX[0] + name

        def fn(*ix):
            return inp(name, flags, *ix)
        a = from_fn(d, fn, dt)
        if not d:
            a.py = True
            return a
        return it.new(ArrCell(a, 'argument ' + name))


BATCHES = [Batch('scalar'), Batch('one'), Batch('many')]


def len_of(it, v):
    """number of elements of a list value, as a term"""
    if isinstance(v, Ref):
        c = it.heap[v.cid]
        if isinstance(c, SymListCell):
            return c.count
        if isinstance(c, ListCell):
            return num(len(c.items))
    return None
