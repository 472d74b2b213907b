"""Abstract interpreter for the package sources.

Flow-sensitive, context-sensitive (callees are analysed in the abstract state of the call site),
with gated merges at joins instead of path enumeration: a value that differs between the branches of
a condition becomes a decision diagram over that condition.  Loops of symbolic length are
summarised from one generic iteration.  The heap maps abstract cells (array objects, views, lists,
dicts, instances) to contents, so aliasing and in-place updates are tracked.
"""
import ast
import os
from . import arrays, valuation
from .arrays import *


# ------------------------------------------------------------------ values
class Val(object):
    pass


class Ref(Val):
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return 'Ref(%d)' % self.cid


class Tup(Val):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Phi(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Phi(%s,%r,%r)' % (brief(self.c, 80), self.a, self.b)


class Unbound(Val):
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = Unbound()


class Opq(Val):
    """value of a construct outside the model"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opq(%s)' % self.why


class Carried(Val):
    """non-numeric loop-carried value; any use asks for peeling"""

    def __init__(self, loc):
        self.loc = loc


class FuncV(Val):
    def __init__(self, node, mod, cls, env, defaults, kwdefaults, name):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name

    def __repr__(self):
        return 'Func(%s)' % self.name


class BoundM(Val):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class LibM(Val):
    """method of a library object: (receiver, name)"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return 'LibM(%r.%s)' % (self.recv, self.name)


class ClassV(Val):
    def __init__(self, name, mod, bases, attrs, meta, node):
        self.name, self.mod, self.bases, self.attrs, self.meta, self.node = name, mod, bases, attrs, meta, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def __repr__(self):
        return 'Class(%s)' % self.name


class ModV(Val):
    def __init__(self, name, path):
        self.name, self.path, self.env = name, path, {}
        self.loaded = False

    def __repr__(self):
        return 'Mod(%s)' % self.name


class Ext(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class SuperV(Val):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SymStr(Val):
    """symbolic string (term)"""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SymStr(%s)' % brief(self.t)


class Lib(Val):
    """immutable library object: kind + data dict"""

    def __init__(self, kind, **data):
        self.kind = kind
        self.d = data

    def __repr__(self):
        return 'Lib(%s)' % self.kind


class RangeV(Val):
    """lazy index sequence: count terms start + step*k"""

    def __init__(self, start, count, step):
        self.start, self.count, self.step = start, count, step


class SeqV(Val):
    """lazy sequence of symbolic length: elem(index term) -> value"""

    def __init__(self, count, elem):
        self.count, self.elem = count, elem


class ExcV(Val):
    def __init__(self, name, args=(), node=None):
        self.name, self.args, self.node = name, args, node


# heap cells (immutable; replaced on write)
class ArrCell(object):
    __slots__ = ('arr', 'origin')

    def __init__(self, arr, origin=None):
        self.arr, self.origin = arr, origin


class ViewCell(object):
    __slots__ = ('base', 'get', 'set', 'origin')

    def __init__(self, base, get, set_):
        self.base, self.get, self.set = base, get, set_
        self.origin = None


class ListCell(object):
    __slots__ = ('items', 'origin')

    def __init__(self, items, origin=None):
        self.items, self.origin = tuple(items), origin


def has_break(body):
    """whether a block breaks out of the loop it is the body of"""
    for st in body:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, (ast.For, ast.While)):
            if has_break(st.orelse):
                return True
        elif not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for n in ('body', 'orelse', 'finalbody'):
                if has_break(getattr(st, n, [])):
                    return True
            if any(has_break(h.body) for h in getattr(st, 'handlers', [])):
                return True
    return False


class SymListCell(object):
    """list of symbolic length"""
    __slots__ = ('count', 'elem', 'name', 'origin', 'parts')

    def __init__(self, count, elem, name, origin=None, parts=None):
        self.count, self.elem, self.name, self.origin = count, elem, name, origin
        self.parts = parts      # the cells of the lists it was concatenated from


class FiltCell(object):
    """list of the values v(k) for the k in [0, n) with c(k), in order"""
    __slots__ = ('n', 'iv', 'c', 'v', 'origin')

    def __init__(self, n, iv, c, v, origin=None):
        self.n, self.iv, self.c, self.v, self.origin = n, iv, c, v, origin


class CondItem(Val):
    def __init__(self, c, v):
        self.c, self.v = c, v


class DKeys(CondItem):
    """the keys a loop or a comprehension of symbolic length enters into a dictionary: key v of iteration c, where cond;
    of equal keys the first (setdefault) or the last iteration counts"""

    def __init__(self, n, iv, cond, v, first):
        self.c, self.v, self.n, self.cond, self.first = iv, v, n, cond, first


class DictCell(object):
    __slots__ = ('items', 'sym', 'origin')

    def __init__(self, items=(), sym=None, origin=None):
        self.items = tuple(items)       # ((key value, value), ...)
        self.sym = sym                  # function key -> value for unknown content, or None
        self.origin = origin


class InstCell(object):
    __slots__ = ('cls', 'attrs', 'origin')

    def __init__(self, cls, attrs, origin=None):
        self.cls, self.attrs, self.origin = cls, attrs, origin


class RecCell(object):
    """structured array with n rows: fields name -> (dtype, shape, Ref of the field's array)"""
    __slots__ = ('n', 'fields', 'origin')

    def __init__(self, n, fields, origin=None):
        self.n, self.fields, self.origin = n, fields, origin


class CarriedCell(object):
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class Dead(Exception):
    """the current abstract execution point is unreachable"""


def streq_atom(tx, ty):
    def key(t):
        a = single_atom(t)
        return (0 if a is not None and a.op == 'str' else 1, t.id)
    return raw_atom('streq', *sorted([tx, ty], key=key))


class NeverCompletes(Exception):
    pass


class NeedPeel(Exception):
    pass


class ReturnInLoop(Exception):
    pass


class Frame(object):
    def __init__(self, func, mod, env, cls=None, self_=None, parent=None, name='?'):
        self.func, self.mod, self.env, self.cls, self.self_ = func, mod, env, cls, self_
        self.parent = parent
        self.returns = []
        self.loops = []
        self.name = name
        self.localnames = frozenset()


class Ret(tuple):
    """a pending return: condition, value, heap, statement, loop context (and the variables, for finally)"""
    env = None


class Handler(object):
    def __init__(self, frame):
        self.frame = frame
        self.items = []


class Event(object):
    def __init__(self, kind, pc, node, func, data):
        self.kind, self.pc, self.node, self.func, self.data = kind, pc, node, func, data

    def where(self):
        return self.data.get('where', '?')

    def __repr__(self):
        return 'Event(%s %s %r)' % (self.kind, self.where(), {k: v for k, v in self.data.items() if k != 'where'})


class Result(object):
    """result of analysing one entry point"""
    pass


class Program(object):
    """parsed package"""

    def __init__(self, root):
        self.root = root                       # .../src/kcorrect
        self.mods = {}
        self.files = {}
        for dp, dn, fn in os.walk(root):
            dn[:] = [d for d in dn if d not in ('data', '__pycache__')]
            for f in sorted(fn):
                if f.endswith('.py'):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)
                    parts = rel[:-3].split(os.sep)
                    if parts[-1] == '__init__':
                        parts = parts[:-1]
                    name = '.'.join(['kcorrect'] + parts)
                    with open(path) as fp:
                        src = fp.read()
                    self.files[name] = (path, ast.parse(src, filename=path))


    def longest_name(self):
        try:
            return max(len(f) - 4 for f in os.listdir(os.path.join(self.root, 'data', 'responses')) if f.endswith('.dat'))
        except (OSError, ValueError):
            return 28


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, prog, lib, overrides=None, assume=None):
        self.prog = prog
        self.swidth = {}                # width of string fields, by cell
        self.lib = lib                  # library model
        self.heap = {}
        self.pc = TRUE
        self.frames = []
        self.handlers = []
        self.events = []
        self.top_raises = []
        self.ncid = 0
        self.copies = {}                # objects standing for an element of a list of symbolic length
        self.quiet = 0
        self.loop_left = FALSE          # the iterations that leave the loop just analysed
        self.overrides = overrides or {}
        self.assumed = assume or {}
        self.same_memo = {}
        self.counter = 0
        self.loopctx = []               # stack of (loop index atom, count)
        self.mods = {}
        self.touched = set()            # functions entered
        self.stmts = set()              # statements evaluated
        self.dictsingle = {}
        self.unmodelled = []
        self.faults = frozenset()       # library failures to consider: 'table', 'spline'
        self.listing = None             # concrete directory listing
        self.fs = {}                    # abstract file system: name -> Lib('hdul')
        for name in prog.files:
            self.mods[name] = ModV(name, prog.files[name][0])
        self.load_module('kcorrect')
        for name in sorted(prog.files):
            self.load_module(name)

    # -------------------------------------------------------------- infrastructure
    def new(self, cell):
        self.ncid += 1
        self.heap[self.ncid] = cell
        return Ref(self.ncid)

    def where(self, node=None):
        f = self.frames[-1] if self.frames else None
        if f is None:
            return '?'
        p = f.mod.path if f.mod is not None else '?'
        i = p.find('src/kcorrect')
        p = p[i:] if i >= 0 else p
        return '%s:%s (%s)' % (p, getattr(node, 'lineno', '?'), f.name)

    def event(self, kind, node, **data):
        if self.quiet:
            return
        data.setdefault('where', self.where(node))
        data.setdefault('line', self.srcline(node))
        data.setdefault('func', self.frames[-1].name if self.frames else '?')
        data['loops'] = list(self.loopctx)
        data['caught'] = [n for h in self.handlers for n in getattr(h, 'names', ())]
        self.events.append(Event(kind, self.pc, node, self.frames[-1].name if self.frames else '?', data))

    def srcline(self, node):
        try:
            return ast.unparse(node)[:160]
        except Exception:
            return ''

    def unmod(self, why, node=None):
        if not self.quiet:
            self.unmodelled.append((why, self.where(node), self.srcline(node)))
            self.event('unmodelled', node, why=why)
        return Opq(why)

    def opaque_term(self, why):
        self.counter += 1
        return atomP(raw_atom('opaque', why, self.counter))

    def sym(self, *parts):
        self.counter += 1
        return self.counter

    # -------------------------------------------------------------- raising
    def do_raise(self, exc, node=None, cond=TRUE):
        c = And(self.pc, cond)
        if c is not FALSE:
            rec = dict(pc=c, exc=exc, node=node, heap=dict(self.heap), where=self.where(node),
                       line=self.srcline(node), loops=list(self.loopctx), func=self.frames[-1].name if self.frames else '?',
                       stack=[f.name for f in self.frames])
            if self.handlers:
                h = self.handlers[-1]
                rec['env'] = dict(h.frame.env)
                h.items.append(rec)
            elif not self.quiet:
                self.top_raises.append(rec)
        self.pc = And(self.pc, Not(cond))
        if self.pc is FALSE:
            raise Dead()

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.ndim == b.ndim and all(x.same(y) for x, y in zip(a.axes, b.axes)):
                xa, xb = a.body, b.body
                if is_bool(xa) != is_bool(xb):
                    return Phi(c, a, b)
                return Arr(a.axes, ite(c, xa, xb), a.dt if RANK[a.dt] >= RANK[b.dt] else b.dt, a.py and b.py)
            return Phi(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if self.same_val(a, b):
            return a
        if isinstance(a, Phi) and a.c is c:
            a = a.a
            return self.merge_val(c, a, b)
        if isinstance(b, Phi) and b.c is c:
            b = b.b
            return self.merge_val(c, a, b)
        return Phi(c, a, b)

    def same_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.cid == b.cid
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.ndim == b.ndim and a.body is b.body and all(x.same(y) for x, y in zip(a.axes, b.axes)) \
                and a.dt == b.dt
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, SymStr) and isinstance(b, SymStr):
            return a.t is b.t
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Phi) and isinstance(b, Phi):
            return a.c is b.c and self.same_val(a.a, b.a) and self.same_val(a.b, b.b)
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return a.func is b.func and self.same_val(a.self_, b.self_)
        if isinstance(a, ModV) or isinstance(a, ClassV) or isinstance(a, FuncV):
            return a is b
        if isinstance(a, Lib) and isinstance(b, Lib) and a.kind == b.kind:
            if a.kind == 'interp':
                return self.interp_same(a, b)
            return a.d.keys() == b.d.keys() and all(
                (a.d[k] is b.d[k] or self.same_val(a.d[k], b.d[k]) or
                 (isinstance(a.d[k], (str, int, tuple, type(None))) and a.d[k] == b.d[k])) for k in a.d)
        return False

    def interp_same(self, a, b):
        return a.d['opts'] == b.d['opts'] and a.d['axis'] == b.d['axis'] and \
            self.same_val(a.d['x'], b.d['x']) and self.same_val(a.d['y'], b.d['y'])

    def merge_cell(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, ArrCell) and isinstance(b, ArrCell):
            v = self.merge_val(c, a.arr, b.arr)
            if isinstance(v, Arr):
                return ArrCell(v, a.origin)
            return ArrCell(v, a.origin)
        if isinstance(a, InstCell) and isinstance(b, InstCell) and a.cls is b.cls:
            attrs = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                attrs[k] = self.merge_val(c, a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND))
            return InstCell(a.cls, attrs, a.origin)
        if isinstance(a, ListCell) and isinstance(b, ListCell):
            if len(a.items) == len(b.items):
                return ListCell([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.origin)
            n = min(len(a.items), len(b.items))
            pre = []
            for x, y in zip(a.items[:n], b.items[:n]):
                pre.append(self.merge_val(c, x, y))
            rest = [CondItem(c, v) for v in a.items[n:]] + [CondItem(Not(c), v) for v in b.items[n:]]
            return ListCell(pre + rest, a.origin)
        if isinstance(a, DictCell) and isinstance(b, DictCell):
            items = []
            bi = list(b.items)
            for k, v in a.items:
                m = [j for j, (kk, vv) in enumerate(bi) if self.same_val(k, kk)]
                if m:
                    items.append((k, self.merge_val(c, v, bi[m[0]][1])))
                    del bi[m[0]]
                else:
                    items.append((k, self.merge_val(c, v, UNBOUND)))
            for k, v in bi:
                items.append((k, self.merge_val(c, UNBOUND, v)))
            return DictCell(items, a.sym or b.sym, a.origin)
        if hasattr(a, 'merge_with') and type(a) is type(b):
            return a.merge_with(self, c, b)
        if isinstance(a, ViewCell) and isinstance(b, ViewCell):
            return a
        return ArrCell(Opq('merge of different containers'))

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h2)
        for cid, cell in h1.items():
            o = out.get(cid)
            if o is None:
                out[cid] = cell
            elif o is not cell:
                out[cid] = self.merge_cell(c, cell, o)
        return out

    def merge_env(self, c, e1, e2):
        out = {}
        for k in list(e1) + [k for k in e2 if k not in e1]:
            out[k] = self.merge_val(c, e1.get(k, UNBOUND), e2.get(k, UNBOUND))
        return out

    def merge_states(self, sts):
        """sts: list of (pc, env, heap); returns (pc, env, heap)"""
        pc = Or(*[s[0] for s in sts])
        p, e, h = sts[-1]
        for (pc1, e1, h1) in reversed(sts[:-1]):
            c = restrict(pc1, pc)
            e = self.merge_env(c, e1, e)
            h = self.merge_heap(c, h1, h)
        return pc, e, h

    # -------------------------------------------------------------- branching
    def snap(self):
        return (self.pc, dict(self.frames[-1].env), dict(self.heap))

    def restore(self, s):
        self.pc, self.frames[-1].env, self.heap = s[0], dict(s[1]), dict(s[2])

    def branch(self, c, f1, f2):
        """evaluate f1 under c and f2 under not c; merge states and results"""
        c = restrict(c, self.pc)
        if c is TRUE or And(self.pc, Not(c)) is FALSE:
            return f1()
        if c is FALSE or And(self.pc, c) is FALSE:
            return f2()
        s0 = self.snap()
        outs = []
        for cond, f in ((c, f1), (Not(c), f2)):
            self.restore(s0)
            self.pc = And(s0[0], cond)
            try:
                r = f()
                outs.append((self.pc, self.frames[-1].env, self.heap, r))
            except Dead:
                outs.append(None)
            except (Unmodelled, NeedPeel):
                self.restore(s0)
                raise
        if outs[0] is None and outs[1] is None:
            raise Dead()
        if outs[0] is None or outs[1] is None:
            o = outs[0] or outs[1]
            self.pc, self.frames[-1].env, self.heap = o[0], o[1], o[2]
            return o[3]
        a, b = outs
        self.pc = Or(a[0], b[0])
        self.frames[-1].env = self.merge_env(c, a[1], b[1])
        self.heap = self.merge_heap(c, a[2], b[2])
        return self.merge_val(c, a[3], b[3])

    def on(self, v, f):
        """apply f to v, splitting joins"""
        v = self.resolve(v)
        if isinstance(v, Phi):
            return self.branch(v.c, lambda: self.on(v.a, f), lambda: self.on(v.b, f))
        if isinstance(v, Carried):
            raise NeedPeel()
        return f(v)

    def resolve(self, v):
        """drop joins decided by the path condition"""
        while isinstance(v, Phi):
            c = restrict(v.c, self.pc)
            if c is TRUE or And(self.pc, Not(c)) is FALSE:
                v = v.a
            elif c is FALSE or And(self.pc, c) is FALSE:
                v = v.b
            else:
                break
        return v

    def on_many(self, vs, f):
        def go(i, acc):
            if i == len(vs):
                return f(*acc)
            return self.on(vs[i], lambda x: go(i + 1, acc + [x]))
        return go(0, [])

    # -------------------------------------------------------------- modules
    def load_module(self, name):
        m = self.mods[name]
        if m.loaded:
            return m
        m.loaded = True
        path, tree = self.prog.files[name]
        m.env['__name__'] = name
        m.env['__file__'] = self.lib.pkgfile(self, path)
        fr = Frame(None, m, m.env, name='<module %s>' % name)
        self.frames.append(fr)
        try:
            for st in tree.body:
                try:
                    self.exec_stmt(st)
                except Dead:
                    break
        finally:
            m.env = self.frames[-1].env
            # functions captured the module object, which holds the environment
            self.frames.pop()
        return m

    def import_name(self, name):
        if name in self.mods:
            self.load_module(name)
            return self.mods[name]
        top = name.split('.')[0]
        if top == 'kcorrect':
            return None
        return Ext(name)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts):
        """returns True when the end of the block is reachable"""
        for st in stmts:
            try:
                self.exec_stmt(st)
            except Dead:
                return False
        return True

    def exec_stmt(self, st):
        arrays.SAME[0] = self.same_terms
        m = getattr(self, 's_' + type(st).__name__, None)
        if not self.quiet:
            self.stmts.add((self.frames[-1].mod.name if self.frames[-1].mod else '', st.lineno))
        if m is None:
            self.unmod('statement ' + type(st).__name__, st)
            return
        s0 = self.snap()
        fr = self.frames[-1]
        nret = len(fr.returns)
        try:
            m(st)
        except ShapeErr as e:
            self.event('shape-error', st, msg=str(e), definite=e.definite)
            self.do_raise(ExcV('ValueError', ('shape: ' + str(e),)), st)
        except Unmodelled as e:
            self.unmod(str(e), st)
            self.restore(s0)
            del fr.returns[nret:]
            self.havoc_stmt(st, str(e))

    def same_terms(self, a, b, vs, dims):
        """no interpretation separates two lengths (or masks over vs) whose normal forms differ"""
        if a.opq or b.opq:
            return False
        pc = self.pc if not self.pc.opq else TRUE
        a, b = restrict(a, pc), restrict(b, pc)
        if a is b:
            return True
        if is_bool(a) != is_bool(b):
            return False
        key = (a.id, b.id, pc.id)
        r = self.same_memo.get(key)
        if r is None:
            vs, dims = list(vs), list(dims)
            for iv, n in self.loopctx:
                if iv.id in a.fv or iv.id in b.fv or iv.id in pc.fv:
                    vs.append(iv)
                    dims.append(n)
            keep = valuation.EFFORT[:]
            valuation.EFFORT[:] = [300, 40, 1.5]
            try:
                r = valuation.refute(a, b, pc, vs, dims) is None and valuation.LAST[0] >= 10
            except Exception:
                r = False
            finally:
                valuation.EFFORT[:] = keep
            self.same_memo[key] = r
        return r

    def havoc_stmt(self, st, why):
        """a statement outside the model: whatever it may assign, store, return or raise is unknown"""
        fr = self.frames[-1]
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                fr.env[n.id] = Opq(why)
        for n in ast.walk(st):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.havoc_target(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ('append', 'extend', 'sort', 'update', 'insert', 'pop', 'setdefault', 'fill', 'clear'):
                self.havoc_target(n.func)
        for n in ast.walk(st):
            if isinstance(n, ast.Return):
                f = flag(raw_atom('opaque', 'return', self.sym()))
                fr.returns.append((And(self.pc, f), Opq(why), dict(self.heap), n, list(self.loopctx)))
                self.pc = And(self.pc, Not(f))
                break
        for n in ast.walk(st):
            if isinstance(n, ast.Raise):
                self.do_raise(ExcV('?'), n, flag(raw_atom('opaque', 'raise', self.sym())))
                break

    def havoc_target(self, n):
        self.quiet += 1
        try:
            if isinstance(n, ast.Subscript) or not isinstance(n.ctx, ast.Store):
                v = self.eval(n.value)
                if isinstance(v, Ref):
                    self.havoc(v)
            else:
                v = self.eval(n.value)
                if isinstance(v, Ref):
                    self.setattr(v, n.attr, Opq('unmodelled store'), n)
        except (Unmodelled, ShapeErr, Dead, NeedPeel):
            pass
        finally:
            self.quiet -= 1

    def havoc(self, ref):
        cell = self.heap.get(ref.cid)
        if isinstance(cell, (ListCell, SymListCell, DictCell)):
            self.heap[ref.cid] = ArrCell(Opq('unmodelled update'), cell.origin)
            return
        if isinstance(cell, ArrCell) and isinstance(cell.arr, Arr):
            a = cell.arr
            vs = [atomP(v) for p, ax in enumerate(a.axes) for v in axvars(p, ax)]
            self.counter += 1
            body = atomP(raw_atom('opaque', 'store', self.counter, *vs))
            self.heap[ref.cid] = ArrCell(Arr(a.axes, body, a.dt), cell.origin)
        elif isinstance(cell, ViewCell):
            self.havoc(Ref(cell.base))

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def s_Pass(self, st):
        pass

    def s_Global(self, st):
        self.event('global', st, names=list(st.names))

    s_Nonlocal = s_Global

    def s_Import(self, st):
        for a in st.names:
            v = self.import_name(a.name)
            if a.asname:
                tgt = v
                self.frames[-1].env[a.asname] = tgt
            else:
                top = a.name.split('.')[0]
                if top in self.mods:
                    self.frames[-1].env[top] = self.mods[top]
                    if v is not None:
                        parts = a.name.split('.')
                        for k in range(1, len(parts)):
                            pm = self.mods.get('.'.join(parts[:k]))
                            cm = self.mods.get('.'.join(parts[:k + 1]))
                            if pm is not None and cm is not None:
                                self.mod_env(pm)[parts[k]] = cm
                else:
                    self.frames[-1].env[top] = Ext(top)
            self.event('import', st, name=a.name, ext=not (a.name.split('.')[0] in self.mods))
            if v is None:
                self.event('missing-name', st, name=a.name, what='module')

    def mod_env(self, m):
        for f in self.frames:
            if f.mod is m and f.func is None:
                return f.env
        return m.env

    def s_ImportFrom(self, st):
        modname = st.module or ''
        if st.level:
            cur = self.frames[-1].mod.name
            ispkg = self.frames[-1].mod.path.endswith('__init__.py')
            parts = cur.split('.')
            if not ispkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            modname = '.'.join(parts + ([modname] if modname else []))
        base = self.import_name(modname) if modname in self.mods or modname.split('.')[0] != 'kcorrect' else None
        for a in st.names:
            nm = a.asname or a.name
            if base is None:
                self.event('missing-name', st, name=modname, what='module')
                self.frames[-1].env[nm] = Opq('import')
                continue
            full = modname + '.' + a.name
            if isinstance(base, ModV):
                env = self.mod_env(base)
                if full in self.mods:
                    self.load_module(full)
                    self.frames[-1].env[nm] = self.mods[full]
                    env[a.name] = self.mods[full]
                elif a.name in env:
                    self.frames[-1].env[nm] = env[a.name]
                elif a.name == '*':
                    for k, v in env.items():
                        if not k.startswith('_'):
                            self.frames[-1].env[k] = v
                else:
                    self.event('missing-name', st, name=full, what='name')
                    self.frames[-1].env[nm] = Opq('import')
            else:
                self.event('import', st, name=full, ext=True)
                self.frames[-1].env[nm] = Ext(full)

    def s_FunctionDef(self, st):
        fr = self.frames[-1]
        defaults = [self.mark_default(self.eval(d), st) for d in st.args.defaults]
        kwd = {a.arg: self.mark_default(self.eval(d), st) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults)
               if d is not None}
        q = st.name if fr.func is None and fr.cls is None else \
            ((fr.cls.name + '.' + st.name) if isinstance(fr.cls, ClassV) and fr.func is None else st.name)
        f = FuncV(st, fr.mod, None, fr.env if fr.func is not None else None, defaults, kwd, q)
        f.frame = fr if fr.func is not None else None
        v = f
        for d in st.decorator_list:
            dn = self.eval(d)
            if isinstance(dn, Ext) and dn.name in ('builtins.property', 'builtins.staticmethod', 'builtins.classmethod'):
                v = Lib(dn.name.split('.')[1], f=v)
            else:
                self.unmod('decorator', st)
                v = Opq('decorated function')
        fr.env[st.name] = v

    def mark_default(self, v, st):
        if isinstance(v, Ref):
            cell = self.heap.get(v.cid)
            if cell is not None and cell.origin is None:
                try:
                    cell.origin = 'default value of %s()' % st.name
                except AttributeError:
                    pass
        return v

    def s_ClassDef(self, st):
        fr = self.frames[-1]
        bases = [self.eval(b) for b in st.bases]
        meta = None
        for k in st.keywords:
            if k.arg == 'metaclass':
                meta = self.eval(k.value)
        for b in bases:
            if isinstance(b, ClassV) and b.meta is not None and meta is None:
                meta = b.meta
        cls = ClassV(st.name, fr.mod, bases, {}, meta, st)
        cf = Frame(None, fr.mod, {}, cls=cls, name=st.name)
        cf.parent = fr
        self.frames.append(cf)
        try:
            self.exec_block(st.body)
            cls.attrs = dict(self.frames[-1].env)
        finally:
            self.frames.pop()
        for k, v in cls.attrs.items():
            if isinstance(v, FuncV):
                v.cls = cls
            if isinstance(v, Lib) and v.kind in ('property', 'staticmethod', 'classmethod') and isinstance(v.d['f'], FuncV):
                v.d['f'].cls = cls
        fr.env[st.name] = cls

    def s_Return(self, st):
        v = self.eval(st.value) if st.value is not None else None
        r = Ret((self.pc, v, dict(self.heap), st, list(self.loopctx)))
        r.env = dict(self.frames[-1].env)
        self.frames[-1].returns.append(r)
        raise Dead()

    def s_Raise(self, st):
        if st.exc is None:
            self.do_raise(getattr(self, 'cur_exc', None) or ExcV('Exception'), st)
            return
        v = self.eval(st.exc)
        self.on(v, lambda x: self.raise_value(x, st))
        raise Dead()

    def raise_value(self, v, st):
        if isinstance(v, ExcV):
            v.node = st
            self.do_raise(v, st)
        elif isinstance(v, Ext) and self.lib.is_exception(v.name):
            self.do_raise(ExcV(v.name.split('.')[-1], node=st), st)
        elif isinstance(v, ClassV) and self.lib.is_exception_class(v):
            self.do_raise(ExcV(v.name, node=st), st)
        elif isinstance(v, Ref) and isinstance(self.heap.get(v.cid), InstCell) and \
                self.lib.is_exception_class(self.heap[v.cid].cls):
            self.do_raise(ExcV(self.heap[v.cid].cls.name, node=st), st)
        elif isinstance(v, Opq):
            self.do_raise(ExcV('?', node=st), st)
        else:
            self.event('bad-raise', st, what=repr(v) if not isinstance(v, str) else 'a string')
            self.do_raise(ExcV('TypeError', ('exceptions must derive from BaseException',), node=st), st)

    def s_Assert(self, st):
        c = self.truth(self.eval(st.test))
        self.do_raise(ExcV('AssertionError'), st, Not(c))

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                self.on_many([o, k], lambda a, b: self.delitem(a, b, t))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.setattr(o, t.attr, UNBOUND, t)

    def delitem(self, o, k, node):
        cid = self.dictcid(o)
        if cid is not None:
            cell = self.heap[cid]
            self.event('dict-del', node, key=k, cid=cid)
            self.heap[cid] = DictCell([(a, b) for a, b in cell.items if not self.same_val(a, k)], cell.sym, cell.origin)
            return
        raise Unmodelled('del')

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value), st)

    def s_AugAssign(self, st):
        if isinstance(st.target, ast.Name):
            cur = self.lookup(st.target.id, st.target)
            rhs = self.eval(st.value)
            self.frames[-1].env[st.target.id] = self.on_many([cur, rhs], lambda c, r: self.inplace(st.op, c, r, st))
        elif isinstance(st.target, ast.Subscript):
            o = self.eval(st.target.value)
            k = self.eval_index(st.target.slice)
            cur = self.subscript(o, k, st.target)
            r = self.eval(st.value)
            d = isinstance(o, Ref) and isinstance(self.heap.get(o.cid), (DictCell, ListCell))
            nv = self.on_many([cur, r], lambda a, b: (self.inplace if d else self.binop)(st.op, a, b, st))
            self.assign_sub(o, k, nv, st)
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value)
            cur = self.getattr(o, st.target.attr, st.target)
            rhs = self.eval(st.value)
            self.setattr(o, st.target.attr, self.on_many([cur, rhs], lambda c, r: self.inplace(st.op, c, r, st)), st)

    def inplace(self, op, c, r, st):
        """c op= r: arrays and lists change themselves"""
        cell = self.heap.get(c.cid) if isinstance(c, Ref) else None
        if isinstance(cell, (ArrCell, ViewCell)):
            new = self.arr(self.binop(op, c, r, st))
            self.store_array(c, [('ell',)], new, st)
            return c
        if isinstance(cell, (ListCell, SymListCell)) and isinstance(op, ast.Add):
            items = self.concrete(r)
            self.mutate_check(c.cid, st)
            if items is not None and isinstance(cell, ListCell):
                self.heap[c.cid] = ListCell(cell.items + tuple(items), cell.origin)
                return c
            other = self.heap.get(r.cid) if isinstance(r, Ref) else None
            if items is not None:
                other = ListCell(items)
            if not isinstance(other, (ListCell, SymListCell)):
                raise Unmodelled('list +=')
            new = self.list_concat(cell, other)
            new.origin = cell.origin
            self.heap[c.cid] = new
            return c
        return self.binop(op, c, r, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.frames[-1].env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]

            def go(x):
                items = self.concrete(x)
                if items is None:
                    if isinstance(x, Opq):
                        for e in t.elts:
                            self.assign(e, x, st)
                        return
                    # unpacking an array along a constant axis
                    raise Unmodelled('unpacking of %r' % (x,))
                if star and len(items) >= n - 1:
                    if any(isinstance(i, CondItem) for i in items):
                        raise Unmodelled('starred assignment')
                    k, m = star[0], len(items) - n + 1
                    items = list(items)
                    items[k:k + m] = [self.new(ListCell(items[k:k + m]))]
                if len(items) != n:
                    self.event('unpack-error', st, want=n, got=len(items))
                    self.do_raise(ExcV('ValueError', ('unpack',)), st)
                    raise Dead()
                for e, i in zip(t.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, i, st)
            self.on(v, go)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            self.assign_sub(o, k, v, st)
        else:
            raise Unmodelled('assignment target')

    def assign_sub(self, o, k, v, st):
        def go(oo, vv, *kk):
            self.store(oo, list(kk) if isinstance(k, IndexTuple) else kk[0], vv, st,
                       tuple_index=isinstance(k, IndexTuple))
        if isinstance(k, IndexTuple):
            self.on_many([o, v] + list(k.items), go)
        else:
            self.on_many([o, v, k], go)

    def s_If(self, st):
        tv = self.eval(st.test)
        c = self.truth(tv)
        c = restrict(c, self.pc)
        if c is TRUE or And(self.pc, Not(c)) is FALSE:
            if not self.exec_block(st.body):
                raise Dead()
            return
        if c is FALSE or And(self.pc, c) is FALSE:
            if not self.exec_block(st.orelse):
                raise Dead()
            return
        s0 = self.snap()
        outs = []
        for cond, blk in ((c, st.body), (Not(c), st.orelse)):
            self.restore(s0)
            self.pc = And(s0[0], cond)
            alive = self.exec_block(blk)
            outs.append(self.snap_move() if alive else None)
        live = [o for o in outs if o is not None]
        if not live:
            raise Dead()
        if len(live) == 1:
            self.pc, self.frames[-1].env, self.heap = live[0]
            return
        a, b = outs
        self.pc = Or(a[0], b[0])
        self.frames[-1].env = self.merge_env(c, a[1], b[1])
        self.heap = self.merge_heap(c, a[2], b[2])

    def snap_move(self):
        return (self.pc, self.frames[-1].env, self.heap)

    def s_With(self, st):
        res = []
        for it in st.items:
            v = self.eval(it.context_expr)
            ev = self.lib.enter(self, v, st)
            res.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ev, st)
        # exceptions and returns inside also close the resource
        fr = self.frames[-1]
        nret = len(fr.returns)
        rl = [(l, len(l)) for l in [h.items for h in self.handlers] + [self.top_raises]]
        alive = self.exec_block(st.body)
        heaps = [r[2] for r in fr.returns[nret:]] + [r['heap'] for l, k in rl for r in l[k:]]
        if alive:
            heaps.append(self.heap)
        for ctx in fr.loops:
            for key in ('break', 'continue'):
                heaps += [x[2] for x in ctx[key]]
        for v in res:
            self.lib.exit(self, v, st, heaps)
        if not alive:
            raise Dead()

    def s_Try(self, st):
        h = Handler(self.frames[-1])
        h.names = [ast.unparse(x) for hd in st.handlers if hd.type is not None
                   for x in (hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type])]
        self.handlers.append(h)
        fr = self.frames[-1]
        nret = len(fr.returns)
        jumps = []
        if st.finalbody and fr.loops:
            jumps = [(fr.loops[-1][k], len(fr.loops[-1][k])) for k in ('break', 'continue') if k in fr.loops[-1]]
        try:
            alive = self.exec_block(st.body)
        finally:
            self.handlers.pop()
        live = []
        h2 = None
        if st.finalbody:
            h2 = Handler(fr)
            self.handlers.append(h2)
        try:
            if alive:
                if st.orelse:
                    alive = self.exec_block(st.orelse)
                if alive:
                    live.append(self.snap())
            for rec in h.items:
                self.handle(st, rec, live)
        finally:
            if h2 is not None:
                self.handlers.pop()
        if st.finalbody:
            self.leaving(st, fr, nret, jumps, h2)
        if not live:
            if st.finalbody:
                self.event('finally', st)
            raise Dead()
        self.pc, self.frames[-1].env, self.heap = self.merge_states(live)
        if st.finalbody:
            if not self.exec_block(st.finalbody):
                raise Dead()

    def leaving(self, st, fr, nret, jumps, h2):
        """the finally clause on the ways out of a try statement other than its end: returns, jumps, exceptions"""
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        for r in rets:
            if r[0] is FALSE:
                continue
            if getattr(r, 'env', None) is None:
                fr.returns.append(r)
                continue
            self.pc, fr.env, self.heap = r[0], dict(r.env), dict(r[2])
            if self.exec_block(st.finalbody):
                x = Ret((self.pc, r[1], dict(self.heap), r[3], r[4]))
                x.env = dict(fr.env)
                fr.returns.append(x)
        for l, n in jumps:
            snaps = l[n:]
            del l[n:]
            for sn in snaps:
                self.restore(sn)
                if self.exec_block(st.finalbody):
                    l.append(self.snap())
        for rec in h2.items:
            self.pc, fr.env, self.heap = rec['pc'], dict(rec['env']), dict(rec['heap'])
            if self.exec_block(st.finalbody):
                rec = dict(rec, pc=self.pc, heap=dict(self.heap))
                self.passed_on(rec)

    def passed_on(self, rec):
        if self.handlers:
            h = self.handlers[-1]
            rec = dict(rec)
            rec['env'] = dict(h.frame.env)
            h.items.append(rec)
        elif not self.quiet:
            self.top_raises.append(rec)

    def handle(self, st, rec, live):
        exc = rec['exc']
        for hd in st.handlers:
            m = True
            if hd.type is not None:
                tv = self.eval_quiet(hd.type)
                m = self.lib.exc_match(exc, tv)
            if m:
                self.pc, self.frames[-1].env, self.heap = rec['pc'], dict(rec['env']), dict(rec['heap'])
                if hd.name:
                    self.frames[-1].env[hd.name] = exc
                old = getattr(self, 'cur_exc', None)
                self.cur_exc = exc
                if hd.type is None or m == 'broad':
                    self.event('broad-except', hd)
                alive = self.exec_block(hd.body)
                self.cur_exc = old
                if alive:
                    live.append(self.snap())
                return
        # not handled here
        self.passed_on(rec)

    def eval_quiet(self, e):
        return self.eval(e)

    # -------------------------------------------------------------- loops
    def s_Break(self, st):
        self.frames[-1].loops[-1]['break'].append(self.snap())
        raise Dead()

    def s_Continue(self, st):
        self.frames[-1].loops[-1]['continue'].append(self.snap())
        raise Dead()

    def s_For(self, st):
        it = self.eval(st.iter)
        self.on(it, lambda v: self.for_value(st, v))

    def for_value(self, st, v):
        items = self.concrete(v, st)
        if items is not None:
            self.loop_concrete(st, items)
            return
        cell = self.heap.get(v.cid) if isinstance(v, Ref) else None
        if isinstance(cell, SymListCell) and cell.parts and not st.orelse and not has_break(st.body):
            for p in cell.parts:
                self.for_value(st, self.new(p))
            return
        if isinstance(cell, FiltCell):
            # the positions selected, in order; the others leave everything as it is
            seq = cell.n, lambda k: CondItem(subst(cell.c, {cell.iv: k}), self.as_elem(self.subst_val(cell.v, {cell.iv: k})))
        else:
            seq = self.as_seq(v, st)
        if seq is None:
            raise Unmodelled('loop over %r' % (v,))
        n, elem = seq
        left = self.loop_symbolic(st.target, st.body, n, elem, st)
        if left is None:
            if st.orelse:
                if not self.exec_block(st.orelse):
                    raise Dead()
            return
        # left by break or return in some iterations
        full, broken = left
        live = []
        if full is not None:
            self.restore(full)
            try:
                if not st.orelse or self.exec_block(st.orelse):
                    live.append(self.snap())
            except Dead:
                pass
        live += broken
        if not live:
            raise Dead()
        self.pc, self.frames[-1].env, self.heap = self.merge_states(live)

    def loop_concrete(self, st, items):
        fr = self.frames[-1]
        broken = []
        alive = True
        for x in items:
            ctx = {'break': [], 'continue': []}
            fr.loops.append(ctx)
            try:
                if isinstance(x, CondItem):
                    s0 = self.snap()
                    self.pc = And(self.pc, x.c)
                    xv = x.v
                else:
                    s0 = None
                    xv = x
                alive = True
                try:
                    self.assign(st.target, xv, st)
                    alive = self.exec_block(st.body)
                except Dead:
                    alive = False
            finally:
                fr.loops.pop()
            live = ([self.snap()] if alive else []) + ctx['continue']
            if s0 is not None:
                live.append((And(s0[0], Not(x.c)), s0[1], s0[2]))
            broken += ctx['break']
            if not live:
                alive = False
                break
            self.pc, fr.env, self.heap = self.merge_states(live)
            alive = True
        if alive and st.orelse:
            alive = self.exec_block(st.orelse)
        live = ([self.snap()] if alive else []) + broken
        if not live:
            raise Dead()
        self.pc, fr.env, self.heap = self.merge_states(live)

    def s_While(self, st):
        # while k < n: body; k += c   (single induction variable)
        t = st.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)):
            name = t.left.id
            inc = [s for s in st.body if isinstance(s, (ast.AugAssign, ast.Assign)) and
                   isinstance((s.target if isinstance(s, ast.AugAssign) else s.targets[0]), ast.Name) and
                   (s.target if isinstance(s, ast.AugAssign) else s.targets[0]).id == name]
            if len(inc) == 1:
                start = self.arr(self.lookup(name, t.left))
                stop = self.arr(self.eval(t.comparators[0]))
                one = inc[0]
                step = None
                if isinstance(one, ast.AugAssign) and isinstance(one.op, ast.Add):
                    step = self.arr(self.eval(one.value)).body
                elif isinstance(one, ast.Assign) and isinstance(one.value, ast.BinOp) and \
                        isinstance(one.value.op, ast.Add) and isinstance(one.value.left, ast.Name) and \
                        one.value.left.id == name:
                    step = self.arr(self.eval(one.value.right)).body
                K = const(step) if step is not None else None
                if K is not None and (K == 1 or K > 0 and K.denominator == 1 and isinstance(t.ops[0], ast.Lt)) and one is st.body[-1] and \
                        start.dt == 'i' and stop.dt == 'i':
                    n = sub(stop.body, start.body)
                    if isinstance(t.ops[0], ast.LtE):
                        n = add(n, ONE)
                    if K != 1:
                        n = mk('nsteps', start.body, stop.body, step)
                    cn = const(n)
                    body = st.body[:-1]
                    tgt = ast.Name(id=name, ctx=ast.Store())
                    ast.copy_location(tgt, st)
                    if cn is not None and cn <= 64:
                        f = ast.For(target=tgt, iter=t.left, body=body or [ast.Pass(lineno=st.lineno, col_offset=0)], orelse=st.orelse, lineno=st.lineno,
                                    col_offset=0)
                        self.loop_concrete(f, [scalar(add(start.body, num(K * k)), 'i', True) for k in range(max(0, int(cn)))])
                    else:
                        if self.loop_symbolic(tgt, body, n,
                                              lambda k: scalar(add(start.body, mul(step, k)), 'i', True), st) is not None:
                            raise Unmodelled('break in a loop of symbolic length')
                    self.frames[-1].env[name] = scalar(add(start.body, mul(step, n)), 'i', True)
                    return
        # concrete evaluation when the condition stays decided
        for _ in range(64):
            c = restrict(self.truth(self.eval(st.test)), self.pc)
            if c is FALSE:
                return
            if c is not TRUE:
                break
            fr = self.frames[-1]
            ctx = {'break': [], 'continue': []}
            fr.loops.append(ctx)
            try:
                alive = self.exec_block(st.body)
            finally:
                fr.loops.pop()
            live = ([self.snap()] if alive else []) + ctx['continue']
            if ctx['break']:
                if not live:
                    self.pc, fr.env, self.heap = self.merge_states(ctx['break'])
                    return
                raise Unmodelled('while with conditional break')
            if not live:
                raise Dead()
            self.pc, fr.env, self.heap = self.merge_states(live)
        raise Unmodelled('while loop')

    # ---- symbolic loops
    def loop_symbolic(self, target, body, n, elem, st, lo=ZERO, peeled=False):
        """body for index k in [lo, n)"""
        fr = self.frames[-1]
        entry = self.snap()
        name = '%sL%d' % ('', len(self.loopctx))
        self.counter += 1
        iv = raw_atom('ix', 'k%d' % self.counter)
        I = atomP(iv)
        carried = {}        # loc -> placeholder kind
        induct = {}         # loc -> start-of-iteration value
        keep_cnt = self.counter
        keep_cid = self.ncid
        try:
            for rnd in range(8):
                self.counter = keep_cnt
                self.ncid = keep_cid
                self.quiet += 1
                marks = self.raise_marks()
                try:
                    ex = self.loop_iter(target, body, elem, I, entry, carried, induct, st, iv, n, lo)
                finally:
                    self.quiet -= 1
                    for l, k in marks:
                        del l[k:]
                changed = self.loop_changed(entry, ex, carried, induct)
                new = [l for l in changed if l not in carried and l not in induct]
                if new:
                    for l in new:
                        carried[l] = True
                    continue
                # induction variables
                found = False
                for l in list(carried):
                    inc = self.induction(l, entry, ex, iv)
                    if inc is not None:
                        ev = self.loc_get(entry, l)
                        induct[l] = ev.with_(body=add(ev.body, mul(inc, sub(I, lo))), py=ev.py)
                        del carried[l]
                        found = True
                if not found:
                    break
            else:
                raise Unmodelled('loop does not stabilise')
            self.counter = keep_cnt
            self.ncid = keep_cid
            marks = self.raise_marks()
            left = self.loop_left
            if left is not FALSE:
                return self.loop_leaving(target, body, elem, I, entry, carried, induct, st, iv, n, lo, ex, left, marks)
            ex = self.loop_iter(target, body, elem, I, entry, carried, induct, st, iv, n, lo)
            self.raise_close(marks, iv, n, lo)
        except NeverCompletes:
            if self.loop_left is not FALSE:
                # nothing gets past the first iteration
                self.restore(entry)
                full = (And(entry[0], cmp('<=', n, lo)), entry[1], entry[2])
                self.pc = And(entry[0], cmp('>', n, lo))
                return (full if full[0] is not FALSE else None), self.loop_last(target, body, elem, lo, st, False)
            # the loop is left only when there is no iteration
            self.counter = keep_cnt
            self.ncid = keep_cid
            if not self.quiet:
                marks = self.raise_marks()
                try:
                    self.loop_iter(target, body, elem, I, entry, carried, induct, st, iv, n, lo)
                except NeverCompletes:
                    pass
                self.raise_close(marks, iv, n, lo)
            self.restore(entry)
            self.pc = And(entry[0], cmp('<=', n, lo))
            if self.pc is FALSE:
                raise Dead()
            return
        except NeedPeel:
            if peeled:
                self.restore(entry)
                raise Unmodelled('loop-carried object')
            self.counter = keep_cnt
            self.ncid = keep_cid
            self.restore(entry)
            # peel the first iteration
            ctx = {'break': [], 'continue': []}
            fr.loops.append(ctx)
            try:
                self.assign(target, elem(lo), st)
                alive = self.exec_block(body)
            finally:
                fr.loops.pop()
            if ctx['break']:
                raise Unmodelled('break')
            live = ([self.snap()] if alive else []) + ctx['continue']
            if not live:
                raise Dead()
            self.pc, fr.env, self.heap = self.merge_states(live)
            return self.loop_symbolic(target, body, n, elem, st, add(lo, ONE), True)
        self.loop_finish(entry, ex, carried, induct, iv, n, lo, st)

    def loop_leaving(self, target, body, elem, I, entry, carried, induct, st, iv, n, lo, ex, c, marks):
        """loop whose iterations k with c(k) leave it: the state where none does, and the states after the first that does"""
        if self.has_carr(c) or self.has_carr(ex[0]):
            raise Unmodelled('break depending on earlier iterations')
        c = restrict(c, entry[0])
        lam = mklam([iv], c)
        jv = fresh_ix()
        before = sub(I, lo)
        earlier = And(gt0(before), exists(before, mklam([jv], lam_open(lam, [add(atomP(jv), lo)]))))
        guarded = (And(entry[0], Not(earlier)), entry[1], entry[2])
        keep = self.counter, self.ncid
        try:
            # what happens in an iteration, given that none before it left
            self.loop_iter(target, body, elem, I, guarded, carried, induct, st, iv, n, lo)
        except NeverCompletes:
            pass
        self.raise_close(marks, iv, n, lo)
        bpc = ex[0]
        failing = And(entry[0], Not(bpc), Not(c))
        self.loop_finish(entry, ex, carried, induct, iv, n, lo, st)
        full = self.snap() if self.pc is not FALSE else None
        # the first iteration that leaves
        if iv.id in c.fv:
            some = exists(n, lam) if lo is ZERO else exists(sub(n, lo), mklam([jv], lam_open(lam, [add(atomP(jv), lo)])))
            kv = fresh_ix()
            K = self.first_of(n, kv, lam_open(lam, [atomP(kv)]), lo)
        else:
            some, K = c, lo
        pc = And(entry[0], some)
        if failing is not FALSE:
            fl = mklam([iv], failing)
            m = sub(K, lo)
            pc = And(pc, Not(And(gt0(m), exists(m, mklam([jv], lam_open(fl, [add(atomP(jv), lo)]))))))
        if pc is FALSE:
            return full, []
        states = []
        at = eq0(sub(K, lo))
        p0 = And(pc, at)
        if p0 is not FALSE:
            states.append((p0, entry[1], entry[2]))
        p1 = And(pc, Not(at))
        if p1 is not FALSE:
            self.restore(entry)
            self.loop_finish(entry, ex, carried, induct, iv, K, lo, st)
            states.append((p1, self.frames[-1].env, self.heap))
        self.pc, self.frames[-1].env, self.heap = self.merge_states(states)
        k1 = single_atom(K)
        if k1 is None or k1.op != 'index':
            self.pc = And(self.pc, lam_open(lam, [K]))
        return full, self.loop_last(target, body, elem, K, st, True)

    def first_of(self, n, kv, c, lo):
        """the first k in [lo, n) with c(k), where there is one"""
        if n is ONE:
            return ZERO
        if lo is ZERO and isinstance(c, D) and c.test.kind == 'flag' and c.test.x.op == 'streq' and c.kids[0] is TRUE and c.kids[1] is FALSE:
            a, b = c.test.x.args
            if kv.id in a.fv:
                a, b = b, a
            if kv.id not in a.fv:
                return mk('index', mklam([kv], b), a)
        return atomP(raw_atom('amin', (n,), mklam([kv], ite(And(c, ge0(sub(atomP(kv), lo))), atomP(kv), n))))

    def loop_last(self, target, body, elem, K, st, quiet):
        """the states in which the iteration K leaves the loop"""
        fr = self.frames[-1]
        ctx = {'break': [], 'continue': []}
        fr.loops.append(ctx)
        self.quiet += quiet
        marks = self.raise_marks()
        try:
            self.assign(target, elem(K), st)
            self.exec_block(body)
        except Dead:
            pass
        finally:
            self.quiet -= quiet
            fr.loops.pop()
            if quiet:
                for l, k in marks:
                    del l[k:]       # already seen as those of the iteration
        return [b for b in ctx['break'] if b[0] is not FALSE]

    def raise_marks(self):
        lists = [h.items for h in self.handlers] + [self.top_raises]
        return [(l, len(l)) for l in lists]

    def raise_close(self, marks, iv, n, lo):
        for l, k in marks:
            for r in l[k:]:
                if iv.id in r['pc'].fv:
                    r['pc'] = exists(n, mklam([iv], r['pc']))

    def loop_iter(self, target, body, elem, I, entry, carried, induct, st, iv, n, lo):
        fr = self.frames[-1]
        self.restore(entry)
        for l in carried:
            self.loc_set(l, self.placeholder(l, entry))
        for l, v in induct.items():
            self.loc_set(l, v)
        ctx = {'break': [], 'continue': []}
        nret = len(fr.returns)
        fr.loops.append(ctx)
        self.loopctx.append((iv, n))
        skip = None
        try:
            x = elem(I)
            if isinstance(x, CondItem):
                skip = And(self.pc, Not(x.c)), dict(fr.env), dict(self.heap)
                self.pc = And(self.pc, x.c)
                x = x.v
            self.assign(target, x, st)
            alive = self.exec_block(body)
        except Dead:
            alive = False
        finally:
            fr.loops.pop()
            self.loopctx.pop()
        self.loop_left = FALSE
        for b in ctx['break']:
            self.loop_left = Or(self.loop_left, b[0])
        for r in fr.returns[nret:]:
            self.loop_left = Or(self.loop_left, r[0])
        del fr.returns[nret:]
        live = ([self.snap()] if alive else []) + ctx['continue'] + ([skip] if skip is not None else [])
        if not live:
            raise NeverCompletes()
        return self.merge_states(live)

    # locations: ('env', name) | ('cell', cid) | ('attr', cid, name)
    def loc_get(self, s, l):
        if l[0] == 'env':
            return s[1].get(l[1], UNBOUND)
        if l[0] == 'cell':
            return s[2].get(l[1])
        c = s[2].get(l[1])
        return c.attrs.get(l[2], UNBOUND) if isinstance(c, InstCell) else None

    def loc_set(self, l, v):
        if l[0] == 'env':
            self.frames[-1].env[l[1]] = v
        elif l[0] == 'cell':
            self.heap[l[1]] = v
        else:
            c = self.heap[l[1]]
            at = dict(c.attrs)
            at[l[2]] = v
            self.heap[l[1]] = InstCell(c.cls, at, c.origin)

    def placeholder(self, l, entry):
        v = self.loc_get(entry, l)
        if l[0] == 'cell':
            if isinstance(v, ArrCell) and isinstance(v.arr, Arr):
                a = v.arr
                vs = [atomP(x) for p, ax in enumerate(a.axes) for x in axvars(p, ax)]
                body = atomP(raw_atom('carr', str(l), *vs))
                if is_bool(a.body):
                    body = flag(raw_atom('carrb', str(l), *vs))
                return ArrCell(Arr(a.axes, body, a.dt), v.origin)
            if isinstance(v, ListCell):
                return ListCell([Carried(l)], v.origin)
            if isinstance(v, DictCell):
                return DictCell([('#carried', Carried(l))], v.sym, v.origin)
            return v
        if isinstance(v, Arr):
            vs = [atomP(x) for p, ax in enumerate(v.axes) for x in axvars(p, ax)]
            if is_bool(v.body):
                return v.with_(body=flag(raw_atom('carrb', str(l), *vs)))
            return v.with_(body=atomP(raw_atom('carr', str(l), *vs)))
        return Carried(l)

    def loop_changed(self, entry, ex, carried, induct):
        out = []
        e_env, e_heap = entry[1], entry[2]
        for k, v in ex[1].items():
            l = ('env', k)
            if k not in e_env:
                continue
            s = induct[l] if l in induct else (None if l in carried else e_env[k])
            if l in carried:
                if not (isinstance(v, Carried) and v.loc == l):
                    out.append(l)
            elif not self.same_val(v, s):
                if l not in induct:
                    out.append(l)
        for cid, cell in ex[2].items():
            if cid not in e_heap:
                continue
            ec = e_heap[cid]
            if cell is ec:
                continue
            if isinstance(cell, InstCell) and isinstance(ec, InstCell):
                for a in cell.attrs:
                    l = ('attr', cid, a)
                    if l in carried or l in induct:
                        continue
                    if a not in ec.attrs or not self.same_val(cell.attrs[a], ec.attrs[a]):
                        if a in ec.attrs:
                            out.append(l)
                continue
            if isinstance(cell, ArrCell) and isinstance(ec, ArrCell) and isinstance(cell.arr, Arr) and \
                    isinstance(ec.arr, Arr) and self.same_val(cell.arr, ec.arr):
                continue
            if isinstance(cell, DictCell) and isinstance(ec, DictCell) and len(cell.items) == len(ec.items) and \
                    all(self.same_val(a[0], b[0]) and self.same_val(a[1], b[1]) for a, b in zip(cell.items, ec.items)):
                continue
            l = ('cell', cid)
            if l not in carried:
                out.append(l)
        return out

    def induction(self, l, entry, ex, iv):
        if l[0] == 'cell':
            return None
        ev = self.loc_get(entry, l)
        xv = self.loc_get(ex, l)
        if not (isinstance(ev, Arr) and isinstance(xv, Arr) and ev.ndim == 0 and xv.ndim == 0):
            return None
        if is_bool(ev.body) or is_bool(xv.body):
            return None
        ca = atomP(raw_atom('carr', str(l)))
        inc = sub(xv.body, ca)
        c = const(inc) if isinstance(inc, P) else None
        if c is not None and c != 0:
            return inc
        return None

    def has_carr(self, t, l=None):
        return bool(atoms(t, lambda a: a.op in ('carr', 'carrb') and (l is None or a.args[0] == l)))

    def loop_finish(self, entry, ex, carried, induct, iv, n, lo, st):
        last = {iv: sub(n, ONE)}
        I = atomP(iv)
        env = {}
        heap = dict(ex[2])
        # path condition: every iteration completes
        bpc = ex[0]
        if iv.id in bpc.fv:
            pc = And(entry[0], Not(exists(n, mklam([iv], And(entry[0], Not(bpc))))))
        else:
            pc = bpc
        ok = pc

        def fin(v):
            return self.subst_val(v, last)

        for k, v in ex[1].items():
            l = ('env', k)
            if l in induct:
                # value after the last iteration
                env[k] = self.subst_val(v, last) if isinstance(v, Arr) else v
            elif l in carried:
                env[k] = self.solve_scalar(l, entry[1][k], v, iv, n, lo, last)
            elif k in entry[1] and self.same_val(v, entry[1][k]):
                env[k] = v
            else:
                env[k] = fin(v)
        newcells = set(c for c in heap if c not in entry[2])
        heap0 = dict(heap)
        for cid in list(heap):
            cell = heap[cid]
            if cid in newcells:
                heap[cid] = self.subst_cell(cell, last)
                continue
            ec = entry[2][cid]
            if cell is ec:
                continue
            if isinstance(cell, InstCell) and isinstance(ec, InstCell):
                at = {}
                for a, v in cell.attrs.items():
                    l = ('attr', cid, a)
                    if l in induct:
                        at[a] = self.subst_val(v, last)
                    elif l in carried:
                        at[a] = self.solve_scalar(l, ec.attrs.get(a, UNBOUND), v, iv, n, lo, last)
                    elif a in ec.attrs and self.same_val(v, ec.attrs[a]):
                        at[a] = v
                    else:
                        at[a] = fin(v)
                heap[cid] = InstCell(cell.cls, at, cell.origin)
            elif isinstance(cell, ArrCell) and isinstance(cell.arr, Arr):
                if isinstance(ec.arr, Arr):
                    heap[cid] = ArrCell(self.solve_array(('cell', cid), ec.arr, cell.arr, iv, n, lo), cell.origin)
            elif isinstance(cell, ListCell):
                heap[cid] = self.solve_list(cid, ec, cell, iv, n, lo, heap0, entry[2])
            elif isinstance(cell, DictCell):
                items = [it for it in cell.items if it[0] != '#carried']
                ents = list(ec.items)
                for k, v in items:
                    if isinstance(k, SymStr) and iv.id in k.t.fv or isinstance(k, Arr) and iv.id in k.body.fv:
                        ents.append(self.loop_keys(cid, k, v, iv, n, lo) if len(items) == 1 and not ec.items and cell.sym is None
                                    else (CondItem(iv, k), self.subst_val(v, {})))
                    else:
                        ents = [(a, b) for a, b in ents if not self.same_val(a, k)] + [(k, fin(v))]
                heap[cid] = DictCell(ents, cell.sym, cell.origin)
        self.pc, self.frames[-1].env, self.heap = pc, env, heap

    def loop_keys(self, cid, k, v, iv, n, lo):
        """the entries of an empty dictionary after the store of v under k in every iteration"""
        u = self.unbound_cond(v)
        kt = self.keyterm(k)
        here = lambda a: a.op == 'carrin' and a.args[0] == cid and eq(a.args[1], kt)
        part = lambda a: a.op in ('carrin', 'carr', 'carrb')
        old = (CondItem(iv, k), self.subst_val(v, {}))
        if lo is not ZERO or not self.plain(v):
            return old
        first = False
        if u is not FALSE:
            u1 = map_atoms(u, lambda a: TRUE if here(a) else None)
            u0 = map_atoms(u, lambda a: FALSE if here(a) else None)
            if u1 is TRUE:
                first, u = True, u0
            elif u1 is u0:
                u = u0
            else:
                return old
        v = self.drop_unbound(v)
        if first:
            v = self.map_val(v, lambda t: map_atoms(t, lambda a: FALSE if here(a) else None))
        if atoms(u, part) or any(atoms(t, part) for t in self.val_terms(v)):
            return old
        return DKeys(n, iv, Not(u), k, first), v

    def val_terms(self, v):
        if isinstance(v, Arr):
            return [v.body]
        if isinstance(v, SymStr):
            return [v.t]
        if isinstance(v, Phi):
            return [v.c] + self.val_terms(v.a) + self.val_terms(v.b)
        if isinstance(v, Tup):
            return [t for x in v.items for t in self.val_terms(x)]
        return []

    def map_val(self, v, f):
        if isinstance(v, Arr):
            return v.with_(body=f(v.body))
        if isinstance(v, SymStr):
            return SymStr(f(v.t))
        if isinstance(v, Phi):
            return self.merge_val(f(v.c), self.map_val(v.a, f), self.map_val(v.b, f))
        if isinstance(v, Tup):
            return Tup([self.map_val(x, f) for x in v.items])
        return v

    def plain(self, v):
        if isinstance(v, Phi):
            return self.plain(v.a) and self.plain(v.b)
        if isinstance(v, Tup):
            return all(self.plain(x) for x in v.items)
        if isinstance(v, Lib):
            return v.kind == 'respobj'
        return v is None or v is UNBOUND or isinstance(v, (str, bool, SymStr)) or isinstance(v, Arr)

    def keys_hit(self, dk, v, x):
        """(whether x is one of the keys, the iteration it is found at)"""
        q = fresh_ix()
        cond = And(dk.cond, Not(self.unbound_cond(v)))
        at = lambda t: self.subst_val(t, {dk.c: atomP(q)})
        eqk = self.eq_term(at(dk.v), x)
        if dk.c.id in cond.fv:
            cq = subst(cond, {dk.c: atomP(q)})
            hit = exists(dk.n, mklam([q], And(cq, eqk)))
        else:
            cq = TRUE
            hit = And(cond, self.inlist(SymListCell(dk.n, lambda k: self.subst_val(dk.v, {dk.c: k}), None), x)
                      if self.stringy(dk.v) else exists(dk.n, mklam([q], eqk)))
        kt = self.keyterm(dk.v)
        e = single_atom(kt)
        # the bands of the fit are distinct: the first and the last position of a name are the same
        uniq = e is not None and e.op == 'in' and e.args[0] in ('RESP', 'RESPB') and eq(e.args[2], atomP(dk.c))
        if dk.n is ONE:
            pos = ZERO
        elif (dk.first or uniq) and cq is TRUE and self.stringy(dk.v):
            pos = mk('index', mklam([dk.c], kt), self.keyterm(x))
        elif dk.first:
            pos = atomP(raw_atom('amin', (dk.n,), mklam([q], ite(And(cq, eqk), atomP(q), dk.n))))
        else:
            pos = atomP(raw_atom('amax', (dk.n,), mklam([q], ite(And(cq, eqk), atomP(q), num(-1)))))
        return hit, pos

    def stringy(self, v):
        return isinstance(v, SymStr) or isinstance(v, Arr) and v.dt == 's' and v.ndim == 0

    def keys_value(self, dk, v, x, pos):
        a = single_atom(self.keyterm(dk.v))
        v = self.drop_unbound(v)
        if a is not None:
            kt = self.keyterm(x)
            v = self.map_val(v, lambda t: subst_atom(t, a, kt))
            if isinstance(v, Lib):
                v = Lib(v.kind, **{k: (x if isinstance(y, SymStr) and y.t is dk.v.t else y) for k, y in v.d.items()})
        return self.subst_val(v, {dk.c: pos})

    def solve_scalar(self, l, ev, xv, iv, n, lo, last):
        if isinstance(xv, Carried) and xv.loc == l:
            return ev
        if isinstance(xv, Phi):
            return self.subst_val(xv, last) if not self.phi_carried(xv) else Opq('loop-carried value')
        if isinstance(xv, Carried):
            return Opq('loop-carried value')
        if not isinstance(xv, Arr):
            return self.subst_val(xv, last)
        key = str(l)
        if not self.has_carr(xv.body, key):
            if self.has_carr(xv.body):
                return xv.with_(body=self.opaque_term('loop-carried'))
            return self.subst_val(xv, last)
        if isinstance(ev, Arr) and ev.ndim == xv.ndim:
            vs = [atomP(x) for p, ax in enumerate(xv.axes) for x in axvars(p, ax)]
            if not is_bool(xv.body):
                ca = atomP(raw_atom('carr', key, *vs))
                g = sub(xv.body, ca)
                if not self.has_carr(g):
                    v = fresh_ix()
                    body = subst(g, {iv: add(atomP(v), lo)})
                    s = mk('sumover', sub(n, lo), mklam([v], body))
                    return xv.with_(body=add(ev.body, s))
                # boolean-like accumulation not modelled
            else:
                ca = raw_atom('carrb', key, *vs)
                t = mkTest('flag', ca)
                tt = cof_all(xv.body, t, 0)
                ff = cof_all(xv.body, t, 1)
                if not self.has_carr(tt) and not self.has_carr(ff):
                    if tt is TRUE:      # acc or f(i)
                        return xv.with_(body=Or(ev.body, exists(n, mklam([iv], ff))))
                    if ff is FALSE:     # acc and f(i)
                        return xv.with_(body=And(ev.body, Not(exists(n, mklam([iv], Not(tt))))))
        return Arr(xv.axes, self.opaque_term('loop-carried') if not is_bool(xv.body) else
                   flag(raw_atom('opaque', 'loop-carried', self.sym())), xv.dt)

    def phi_carried(self, v):
        if isinstance(v, Phi):
            return self.phi_carried(v.a) or self.phi_carried(v.b)
        return isinstance(v, Carried)

    def solve_array(self, l, ea, xa, iv, n, lo, key=None):
        """array updated in a loop"""
        key = key or str(l)
        vs = [x for p, ax in enumerate(xa.axes) for x in axvars(p, ax)]
        isb = is_bool(ea.body)
        if isb and not is_bool(xa.body):
            raise Unmodelled('boolean array with numeric store')
        own = raw_atom('carrb' if isb else 'carr', key, *[atomP(v) for v in vs])
        ownT = flag(own) if isb else atomP(own)
        body = own_positions(xa.body, own, vs)
        if body is ownT:
            return ea
        # (a) one position per iteration along some axis
        for p, ax in enumerate(xa.axes):
            if ax.sel:
                continue
            v = axvars(p, ax)[0]
            for t in tests(body):
                if t.kind != 'sgn' or 'Z' not in t.states:
                    continue
                sol = [e for a, e in _solve(t.x) if a is v]
                if not sol or iv.id not in sol[0].fv:
                    continue
                pos = sol[0]                       # position written as a function of the loop index
                off = sub(pos, atomP(iv))
                if iv.id in off.fv:
                    continue
                zi = t.states.index('Z')
                rest = [cof_all(body, t, i) for i in range(len(t.states)) if i != zi]
                if not all(r is ownT for r in rest):
                    # allow updates that leave the other positions alone only
                    continue
                val = cof_all(body, t, zi)
                inv = sub(atomP(v), off)            # loop index for a given position
                ent = ea.body
                # each position along this axis is written by one iteration: what that iteration reads there is the entry value
                val = self.reads_of_entry(val, key, ea, p, pos)
                val = self.reads_of_entry(subst(val, {iv: inv}), key, ea, p, atomP(v), own)
                if any(a is not own for a in atoms(val, lambda a: a.op in ('carr', 'carrb') and a.args[0] == key)):
                    continue
                ent = ea.body
                val = map_atoms(val, lambda a: (ent if a is own else None)) if not isb else \
                    repl_flag(val, own, ent)
                conds = []
                start = add(off, lo)
                if sgnset(start) != frozenset('Z'):
                    conds.append(ge0(sub(atomP(v), start)))
                end = add(off, n)
                if not eq(end, ax.dim):
                    conds.append(gt0(sub(end, atomP(v))))
                # the update at position lo of a peeled loop already happened
                newb = ite(And(*conds), val, ent) if is_bool(val) == is_bool(ent) else \
                    ite(And(*conds), b2n(val), b2n(ent))
                if conds and len(conds) == 1 and const(start) is not None and const(start) > 0 and eq(end, ax.dim) \
                        and const(start) <= 2:
                    # peeled loop: positions below start keep the entry value; they may be instances of val
                    ok = True
                    k = 0
                    while k < const(start):
                        if not eq(subst(b2n(ent), {v: num(k)}), subst(b2n(val), {v: num(k)})):
                            ok = False
                        k += 1
                    if ok:
                        newb = val
                return Arr(ea.axes, newb, ea.dt)
        # (b) blocks: region depends on the iteration, value does not
        reg = changed_region(body, ownT)
        if reg is not None:
            c, val = reg
            if not self.has_carr(val) and iv.id not in val.fv:
                if iv.id not in c.fv:
                    return Arr(ea.axes, ite(c, val, ea.body), ea.dt)
                cov = block_cover(c, iv, n, lo, vs, [d for ax in xa.axes for d in (ax.dims if ax.sel else [ax.dim])])
                if cov:
                    return Arr(ea.axes, val, ea.dt)
                ex_ = block_region(c, iv, n, lo, vs, [d for ax in xa.axes for d in (ax.dims if ax.sel else [ax.dim])])
                if ex_ is None:
                    ex_ = exists(n, mklam([iv], c))
                return Arr(ea.axes, ite(ex_, val, ea.body), ea.dt)
            if not self.has_carr(val) and iv.id in val.fv:
                # the value stored last at a position is that of the last iteration that reaches it
                ds = [d for ax in xa.axes for d in (ax.dims if ax.sel else [ax.dim])]
                hit = None
                if block_cover(c, iv, n, lo, vs, ds):
                    hit = [v for v in vs if v.id in c.fv]
                if hit and len(hit) == 1:
                    last = floordiv(atomP(hit[0]), single_atom(n).args[2])
                    return Arr(ea.axes, subst(val, {iv: last}), ea.dt)
                kv = fresh_ix()
                K = atomP(kv)
                at = subst(And(c, ge0(sub(atomP(iv), lo))), {iv: K})
                some = exists(n, mklam([kv], at))
                last = atomP(raw_atom('amax', (n,), mklam([kv], ite(at, K, num(-1)))))
                return Arr(ea.axes, ite(some, subst(val, {iv: last}), ea.body), ea.dt)
        # (c) no dependence on earlier iterations: last one wins
        if not self.has_carr(body, key):
            if self.has_carr(body):
                return Arr(ea.axes, self.opq_body(ea), ea.dt)
            return Arr(ea.axes, subst(body, {iv: sub(n, ONE)}), ea.dt)
        # (d) accumulation
        if not isb:
            g = sub(body, ownT)
            if not self.has_carr(g):
                v = fresh_ix()
                s = mk('sumover', sub(n, lo), mklam([v], subst(g, {iv: add(atomP(v), lo)})))
                return Arr(ea.axes, add(ea.body, s), ea.dt)
            # independent of the index: repeated identical update is unmodelled
        return Arr(ea.axes, self.opq_body(ea), ea.dt)

    def reads_of_entry(self, t, key, ea, p, pos, own=None):
        if any(ax.sel for ax in ea.axes):
            return t
        vs = [axvars(q, ax)[0] for q, ax in enumerate(ea.axes)]

        def f(a):
            if a is not own and a.op in ('carr', 'carrb') and a.args[0] == key and len(a.args) == len(vs) + 1 and eq(a.args[p + 1], pos):
                return subst(ea.body, dict(zip(vs, [map_atoms(x, f) for x in a.args[1:]])))
            return None
        return map_atoms(t, f)

    def opq_body(self, a):
        self.unmodelled.append(('array updated in a loop', '', '')) if not self.quiet else None
        vs = [atomP(v) for p, ax in enumerate(a.axes) for v in axvars(p, ax)]
        self.counter += 1
        t = raw_atom('opaque', 'loop', self.counter, *vs)
        return flag(t) if is_bool(a.body) else atomP(t)

    def solve_list(self, cid, ec, cell, iv, n, lo, heap, before):
        if isinstance(ec, ListCell) and cell.items and isinstance(cell.items[0], Carried):
            new = cell.items[1:]
            if not new:
                return ec
            if len(new) == 1 and not ec.items and lo is ZERO and isinstance(new[0], CondItem):
                v = new[0].v
                if self.has_refs(v):
                    now, self.heap = self.heap, heap
                    try:
                        v = self.arr(v) if isinstance(v, Ref) and isinstance(heap.get(v.cid), (ArrCell, ViewCell)) else None
                    finally:
                        self.heap = now
                    if v is None:
                        return ArrCell(Opq('list built in a loop'))
                return FiltCell(n, iv, new[0].c, v, ec.origin)
            if len(new) == 1 and not ec.items and lo is ZERO and not isinstance(new[0], CondItem):
                v = new[0]
                if self.has_refs(v):
                    now, self.heap = self.heap, heap
                    try:
                        elem = self.elem_maker(v, iv, lambda k: k in before)
                    except Unmodelled:
                        return ArrCell(Opq('list built in a loop'))
                    finally:
                        self.heap = now
                    elem.holder.append(cid)
                    return SymListCell(n, elem, None, ec.origin)
                return SymListCell(n, lambda k, v=v: self.subst_val(v, {iv: k}), None, ec.origin)
        return ArrCell(Opq('list built in a loop'))

    # -------------------------------------------------------------- substitution in values
    def subst_val(self, v, m):
        if isinstance(v, Arr):
            axes = []
            for ax in v.axes:
                if ax.sel:
                    axes.append(Ax(dims=tuple(subst(d, m) for d in ax.dims), lam=self.subst_lam(ax.lam, m)))
                else:
                    axes.append(S(subst(ax.dim, m)))
            return Arr(axes, subst(v.body, m), v.dt, v.py)
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, m) for x in v.items])
        if isinstance(v, Phi):
            return Phi(subst(v.c, m), self.subst_val(v.a, m), self.subst_val(v.b, m))
        if isinstance(v, SymStr):
            return SymStr(subst(v.t, m))
        if isinstance(v, DKeys):
            if v.c in m:
                m = {k: x for k, x in m.items() if k is not v.c}
            return DKeys(subst(v.n, m), v.c, subst(v.cond, m), self.subst_val(v.v, m), v.first)
        if isinstance(v, Lib):
            return Lib(v.kind, **{k: (self.subst_val(x, m) if isinstance(x, (Arr, Tup, Phi, SymStr, Lib)) else
                                      (subst(x, m) if isinstance(x, Node) and not isinstance(x, (Atom, Lam)) else x))
                                  for k, x in v.d.items()})
        return v

    def subst_lam(self, lam, m):
        vs = [fresh_ix() for _ in range(lam.nb)]
        return mklam(vs, subst(lam_open(lam, [atomP(v) for v in vs]), m))

    def subst_cell(self, c, m):
        if isinstance(c, ArrCell):
            return ArrCell(self.subst_val(c.arr, m), c.origin)
        if isinstance(c, ListCell):
            return ListCell([self.subst_val(x, m) for x in c.items], c.origin)
        if isinstance(c, DictCell):
            return DictCell([(self.subst_val(k, m), self.subst_val(x, m)) for k, x in c.items], c.sym, c.origin)
        if isinstance(c, InstCell):
            return InstCell(c.cls, {k: self.subst_val(x, m) for k, x in c.attrs.items()}, c.origin)
        if isinstance(c, ViewCell):
            return c
        return c

    # -------------------------------------------------------------- sequences
    def concrete(self, v, node=None):
        """list of values when v is a sequence of known length, else None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            c = self.heap.get(v.cid)
            if isinstance(c, ListCell):
                if any(isinstance(x, Carried) for x in c.items):
                    raise NeedPeel()
                return list(c.items)
            if isinstance(c, DictCell):
                if c.sym is None and not any(isinstance(k, CondItem) for k, x in c.items):
                    return [k for k, x in c.items]
                return None
            if isinstance(c, InstCell) and '#dict' in c.attrs:
                return self.concrete(c.attrs['#dict'])
            if type(c).__name__ == 'ResCell' and c.kind == 'hdul':
                return list(c.d['hdus'])
            if isinstance(c, (ArrCell, ViewCell)):
                a = self.arr(v)
                if isinstance(a, Arr) and a.ndim and not a.axes[0].sel:
                    d = const(a.axes[0].dim)
                    if d is not None and d <= 24:
                        return [self.subscript(v, scalar(k, 'i', True), node) for k in range(int(d))]
            return None
        if isinstance(v, RangeV):
            c = const(v.count)
            if c is not None and c <= 64:
                return [scalar(add(v.start, mul(v.step, num(k))), 'i', True) for k in range(int(c))]
            return None
        if isinstance(v, SeqV):
            c = const(v.count) if isinstance(v.count, P) else None
            if c is not None and c <= 64:
                return [v.elem(num(k)) for k in range(int(c))]
            return None
        return None

    def as_seq(self, v, node=None):
        """(count term, elem function) for sequences of symbolic length"""
        if isinstance(v, RangeV):
            return v.count, lambda k: scalar(add(v.start, mul(v.step, k)), 'i', True)
        if isinstance(v, SeqV):
            return v.count, v.elem
        if isinstance(v, Lib) and v.kind == 'registry':
            return atomP(raw_atom('dim', 'REGNAMES')), lambda k: SymStr(mk('in', 'REGNAMES', '', k))
        if isinstance(v, Ref):
            c = self.heap.get(v.cid)
            if isinstance(c, SymListCell):
                return c.count, c.elem
            if isinstance(c, (ArrCell, ViewCell)):
                a = self.arr(v)
                if isinstance(a, Arr) and a.ndim:
                    ax = a.axes[0]
                    return ax.dim, lambda k: self.subscript(v, scalar(k, 'i', True), node)
        items = self.concrete(v, node)
        if items is not None:
            if not items:
                return ZERO, lambda k: Opq('empty')
            return num(len(items)), lambda k: self.pick(items, k)
        return None

    def pick(self, items, k):
        c = const(k) if isinstance(k, P) else None
        if c is not None:
            return items[int(c)]
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = self.merge_val(eq0(sub(k, num(j))), items[j], r)
        return r

    # -------------------------------------------------------------- arrays and references
    def arr(self, v):
        """numeric content of a value as Arr"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, Ref):
            c = self.heap.get(v.cid)
            if isinstance(c, ArrCell):
                if isinstance(c.arr, Arr):
                    return c.arr
                if isinstance(c.arr, Phi):
                    return self.arr(c.arr)
                raise Unmodelled('array content: %r' % (c.arr,))
            if isinstance(c, ViewCell):
                return c.get(self.arr(Ref(c.base)))
            if isinstance(c, ListCell):
                if any(isinstance(x, (str, SymStr)) for x in c.items):
                    return self.str_array(list(c.items))
                return stack_list([self.arr(x) for x in c.items])
            if isinstance(c, SymListCell):
                v0 = fresh_ix()
                e = c.elem(atomP(v0))
                if isinstance(e, SymStr):
                    a = Arr((), e.t, 's')
                else:
                    a = self.arr(e)
                idx = [[atomP(x) for x in axvars(p + 1, ax)] for p, ax in enumerate(a.axes)]
                body = subst(a.at(idx), {v0: atomP(IX('@0'))})
                return Arr([S(c.count)] + list(a.axes), body, a.dt)
            if isinstance(c, FiltCell):
                a = Arr((), c.v.t, 's') if isinstance(c.v, SymStr) else self.arr(c.v)
                if a.ndim:
                    raise Unmodelled('array of a filtered list of arrays')
                ax = Ax(dims=(c.n,), lam=mklam([c.iv], c.c))
                return Arr([ax], subst(a.body, {c.iv: atomP(axvars(0, ax)[0])}), a.dt)
            raise Unmodelled('array from %s' % type(c).__name__)
        if isinstance(v, Tup):
            return stack_list([self.arr(x) for x in v.items])
        if isinstance(v, Phi):
            x = self.resolve(v)
            if not isinstance(x, Phi):
                return self.arr(x)
            a, b = self.arr(x.a), self.arr(x.b)
            m = self.merge_val(x.c, a, b)
            if isinstance(m, Arr):
                return m
            raise Unmodelled('array of alternative shapes')
        if isinstance(v, Carried):
            raise NeedPeel()
        if isinstance(v, RangeV):
            return Arr([S(v.count)], add(v.start, mul(v.step, atomP(IX('@0')))), 'i')
        if isinstance(v, SeqV):
            r = self.new(SymListCell(v.count, v.elem, None))
            return self.arr(r)
        if isinstance(v, SymStr):
            return Arr((), v.t, 's')
        if isinstance(v, str):
            return Arr((), atomP(raw_atom('str', v)), 's')
        if isinstance(v, bool):
            return boolv(v)
        raise Unmodelled('array from %r' % (v,))

    def str_array(self, items):
        return stack_list([Arr((), x.t if isinstance(x, SymStr) else atomP(raw_atom('str', x)), 's') for x in items], 's')

    def mkarr(self, a, origin=None):
        """array result: scalars stay values, others become heap cells"""
        if a.ndim == 0:
            return a
        return self.new(ArrCell(a, origin))

    def is_array(self, v):
        if isinstance(v, Ref):
            return isinstance(self.heap.get(v.cid), (ArrCell, ViewCell))
        return False

    def view(self, ref, get, set_):
        c = self.new(ViewCell(ref.cid, get, set_))
        a = get(self.arr(ref))
        if a.ndim == 0:
            return a
        return c

    def root(self, cid):
        seen = 0
        while isinstance(self.heap.get(cid), ViewCell) and seen < 50:
            cid = self.heap[cid].base
            seen += 1
        return cid

    def mutate_check(self, cid, node):
        r = self.root(cid)
        c = self.heap.get(r)
        org = getattr(c, 'origin', None)
        self.event('mutate', node, origin=org, cid=r)
        self.copy_updated(r)

    def copy_updated(self, cid):
        """an element of a list of symbolic length is updated in place: the list is not followed any further"""
        for holder in self.copies.get(cid, ()):
            for r in holder:
                if r in self.heap:
                    self.heap[r] = ArrCell(Opq('element of a list updated in place'), getattr(self.heap[r], 'origin', None))

    def store_array(self, ref, items, val, node):
        cell = self.heap[ref.cid]
        self.mutate_check(ref.cid, node)
        if ref.cid in self.swidth:
            val = self.truncated(val, self.swidth[ref.cid])
        cur = self.arr(ref)
        new = store(cur, items, val)
        self.put_array(ref.cid, new)

    def truncated(self, a, width):
        """strings stored in a field of limited width.  Names longer than any shipped response are not considered."""
        def f(t):
            x = single_atom(t)
            if x is not None and x.op == 'str':
                return t if len(x.args[0]) <= width else atomP(raw_atom('str', x.args[0][:width]))
            return t if width >= self.prog.longest_name() else mk('strtrunc', num(width), t)
        return Arr(a.axes, f(a.body), a.dt) if isinstance(a, Arr) and a.dt == 's' else a

    def put_array(self, cid, new):
        cell = self.heap[cid]
        if isinstance(cell, ViewCell):
            base = self.arr(Ref(cell.base))
            self.put_array(cell.base, cell.set(base, new))
        else:
            self.heap[cid] = ArrCell(new, cell.origin)

    # -------------------------------------------------------------- truth
    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, Phi):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if v is None:
            return FALSE
        if isinstance(v, Carried):
            raise NeedPeel()
        if isinstance(v, str):
            return B(bool(v))
        if isinstance(v, Arr):
            if v.ndim == 0:
                return n2b(v.body)
            raise Unmodelled('truth of array')
        if isinstance(v, Tup):
            return B(len(v.items) > 0)
        if isinstance(v, Ref):
            c = self.heap.get(v.cid)
            if isinstance(c, ListCell):
                return B(len(c.items) > 0)
            if isinstance(c, DictCell):
                return B(len(c.items) > 0)
            if isinstance(c, SymListCell):
                return TRUE
            if isinstance(c, (ArrCell, ViewCell)):
                a = self.arr(v)
                if all(const(x.dim) == 1 for x in a.axes):
                    return n2b(a.at([[ZERO] * x.nv for x in a.axes]))
                self.event('shape-error', None, msg='truth value of an array', definite=True)
                self.do_raise(ExcV('ValueError', ('truth value of an array',)))
                raise Dead()
            return TRUE
        if isinstance(v, Opq):
            return flag(raw_atom('opaque', 'truth', self.sym()))
        if v is UNBOUND:
            raise Unmodelled('truth of unbound')
        return self.lib.truth(self, v)

    # -------------------------------------------------------------- names
    def lookup(self, name, node):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                return self.check_bound(v, name, node)
            f = f.parent
        mod = fr.mod
        env = self.mod_env(mod) if mod is not None else {}
        if name in env:
            return self.check_bound(env[name], name, node)
        if name == 'Ellipsis':
            return Lib('ellipsis')
        b = self.lib.builtin(name)
        if b is not None:
            return b
        local = fr.func is not None and name in fr.localnames
        self.event('unbound', node, name=name, definite=True, pc=self.pc, local=local)
        self.do_raise(ExcV('NameError' if not local else 'UnboundLocalError', (name,)), node)
        raise Dead()

    def check_bound(self, v, name, node):
        v = self.resolve(v)
        if v is UNBOUND:
            self.event('unbound', node, name=name, definite=True, local=True)
            self.do_raise(ExcV('UnboundLocalError', (name,)), node)
            raise Dead()
        if isinstance(v, Phi):
            c = self.unbound_cond(v)
            if c is not FALSE:
                cc = And(self.pc, c)
                if cc is not FALSE:
                    if not cc.opq:
                        self.event('unbound', node, name=name, definite=False, cond=cc, local=True)
                    self.do_raise(ExcV('UnboundLocalError', (name,)), node, c)
                v = self.drop_unbound(v)
        return v

    def unbound_cond(self, v):
        if v is UNBOUND:
            return TRUE
        if isinstance(v, Phi):
            return ite(v.c, self.unbound_cond(v.a), self.unbound_cond(v.b))
        return FALSE

    def drop_unbound(self, v):
        if isinstance(v, Phi):
            a, b = self.drop_unbound(v.a), self.drop_unbound(v.b)
            if a is UNBOUND:
                return b
            if b is UNBOUND:
                return a
            return self.merge_val(v.c, a, b)
        return v

    # -------------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unmod('expression ' + type(e).__name__, e)
        pc = self.pc
        try:
            return m(e)
        except Unmodelled as ex:
            self.pc = pc
            return self.unmod(str(ex), e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return boolv(v)
        if isinstance(v, int):
            return scalar(num(v), 'i', True)
        if isinstance(v, float):
            return scalar(num(v), 'f8', True)
        if isinstance(v, str) or v is None:
            return v
        if v is Ellipsis:
            return Lib('ellipsis')
        return self.unmod('constant', e)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.concrete(self.eval(x.value))
                if it is None:
                    raise Unmodelled('starred')
                out.extend(it)
            else:
                out.append(self.eval(x))
        return Tup(out)

    def e_List(self, e):
        t = self.e_Tuple(e)
        return self.new(ListCell(t.items))

    def e_Set(self, e):
        t = self.e_Tuple(e)
        return self.new(ListCell(t.items))

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unmodelled('dict unpacking')
            items.append((self.eval(k), self.eval(v)))
        return self.new(DictCell(items))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.eval(v.value))
        return self.lib.str_concat(self, parts)

    def e_FormattedValue(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Lambda(self, e):
        fr = self.frames[-1]
        fn = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
                             decorator_list=[], lineno=e.lineno, col_offset=0)
        f = FuncV(fn, fr.mod, None, fr.env, [self.eval(d) for d in e.args.defaults], {}, '<lambda>')
        f.frame = fr
        return f

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: go(i + 1))
        r = go(0)
        return r

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return boolv(Not(self.truth(v)))
        return self.on(v, lambda x: self.unary(e.op, x, e))

    def unary(self, op, v, e):
        if isinstance(v, Opq):
            return v
        a = self.arr(v)
        if isinstance(op, ast.USub):
            return self.mkarr(Arr(a.axes, neg(a.body), a.dt if a.dt != 'b' else 'i', a.py))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if a.dt == 'b':
                if a.py:
                    # ~True == -2: always truthy
                    self.event('suspicious', e, what='bitwise inversion of a Python bool')
                    return scalar(sub(neg(b2n(a.body)), ONE), 'i', True)
                return self.mkarr(Arr(a.axes, Not(a.body), 'b'))
            return self.mkarr(Arr(a.axes, sub(neg(a.body), ONE), 'i'))
        raise Unmodelled('unary')

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.on_many([a, b], lambda x, y: self.binop(e.op, x, y, e))

    def binop(self, op, x, y, node):
        if isinstance(x, Opq) or isinstance(y, Opq):
            return x if isinstance(x, Opq) else y
        # python containers
        if isinstance(op, ast.Add):
            if isinstance(x, Tup) and isinstance(y, Tup):
                return Tup(x.items + y.items)
            if isinstance(x, (str, SymStr)) and isinstance(y, (str, SymStr)):
                return self.lib.str_concat(self, [x, y])
            if isinstance(x, Ref) and isinstance(y, Ref):
                cx, cy = self.heap.get(x.cid), self.heap.get(y.cid)
                if isinstance(cx, ListCell) and isinstance(cy, ListCell):
                    return self.new(ListCell(cx.items + cy.items))
                if isinstance(cx, (ListCell, SymListCell, FiltCell)) and isinstance(cy, (ListCell, SymListCell, FiltCell)):
                    return self.new(self.list_concat(cx, cy))
        if isinstance(op, ast.Mult):
            for a, b in ((x, y), (y, x)):
                if isinstance(a, Ref) and isinstance(self.heap.get(a.cid), ListCell) and isinstance(b, Arr):
                    n = const(b.body)
                    cell = self.heap[a.cid]
                    if n is not None:
                        return self.new(ListCell(cell.items * int(n)))
                    if len(cell.items) == 1:
                        it = cell.items[0]
                        return self.new(SymListCell(b.body, lambda k, it=it: it, None))
                if isinstance(a, Tup) and isinstance(b, Arr) and const(b.body) is not None:
                    return Tup(a.items * int(const(b.body)))
        if isinstance(op, ast.Mod) and isinstance(x, (str, SymStr)):
            return self.lib.str_concat(self, [x, '%', y])
        r = self.lib.binop(self, op, x, y, node)
        if r is not None:
            return r
        if x is None or y is None:
            self.event('type-error', node, msg='arithmetic on None')
            self.do_raise(ExcV('TypeError', ('arithmetic on None',)), node)
            raise Dead()
        a, b = self.arr(x), self.arr(y)
        return self.mkarr(self.num_binop(op, a, b, node))

    def list_concat(self, cx, cy):
        """the list of the elements of one list, then those of the other"""
        if isinstance(cx, FiltCell) or isinstance(cy, FiltCell):
            raise Unmodelled('list concatenation')
        if isinstance(cx, ListCell) and isinstance(cy, ListCell):
            return ListCell(cx.items + cy.items)
        for e, o in ((cx, cy), (cy, cx)):
            if isinstance(e, ListCell) and not e.items:
                return SymListCell(o.count, o.elem, o.name, None, o.parts)

        def seq(c):
            if isinstance(c, SymListCell):
                return c.count, c.elem
            if any(isinstance(i, CondItem) for i in c.items):
                raise Unmodelled('list concatenation')
            return num(len(c.items)), lambda k: self.pick(list(c.items), k)
        (nx, ex), (ny, ey) = seq(cx), seq(cy)

        def elem(k):
            c = cmp('<', k, nx)
            if c is TRUE:
                return ex(k)
            if c is FALSE:
                return ey(sub(k, nx))
            return self.merge_val(c, ex(k), ey(sub(k, nx)))
        parts = []
        for c in (cx, cy):
            parts += list(c.parts) if isinstance(c, SymListCell) and c.parts else [c]
        return SymListCell(add(nx, ny), elem, None, None, tuple(parts))

    def num_binop(self, op, a, b, node):
        dt = promote(a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if a.dt == 'b' and b.dt == 'b':
                f = {ast.BitAnd: lambda p, q: And(p, q), ast.BitOr: lambda p, q: Or(p, q),
                     ast.BitXor: lambda p, q: Or(And(p, Not(q)), And(Not(p), q))}[type(op)]
                r = ewise(f, [a, b], 'b')
                r.py = a.py and b.py
                return r
            raise Unmodelled('bit operation')
        if isinstance(op, ast.MatMult):
            return matmul(a, b)
        fn = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div, ast.Pow: pow2}.get(type(op))
        if fn is None:
            if isinstance(op, ast.FloorDiv):
                fn = floordiv
            elif isinstance(op, ast.Mod):
                fn = modE
            else:
                raise Unmodelled('operator')
        if dt == 'b':
            dt = 'i'
        if isinstance(op, ast.Div) and dt == 'i':
            dt = 'f8'
        if isinstance(op, ast.Pow) and dt == 'i' and not isint(b.body):
            dt = 'f8'
        r = ewise(fn, [a, b], dt)
        r.py = a.py and b.py
        return r

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, rhs in zip(e.ops, e.comparators):
            r = self.eval(rhs)
            c = self.on_many([left, r], lambda x, y: self.compare(op, x, y, e))
            if res is None:
                res = c
            else:
                res = boolv(And(self.truth(res), self.truth(c)))
            left = r
        return res

    def compare(self, op, x, y, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(x, y)
            return boolv(r if isinstance(op, ast.Is) else Not(r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(y, x, node)
            return boolv(r if isinstance(op, ast.In) else Not(r))
        if isinstance(x, Opq) or isinstance(y, Opq):
            return boolv(flag(raw_atom('opaque', 'cmp', self.sym())))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.py_eq(x, y)
            if r is not None:
                return boolv(r if isinstance(op, ast.Eq) else Not(r))
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[type(op)]
        if x is None or y is None:
            self.event('type-error', node, msg='comparison with None')
            self.do_raise(ExcV('TypeError', ('comparison with None',)), node)
            raise Dead()
        a, b = self.arr(x), self.arr(y)
        if a.dt == 's' or b.dt == 's':
            raise Unmodelled('string comparison')
        r = ewise(lambda p, q: cmp(o, p, q), [a, b], 'b')
        r.py = a.py and b.py
        return self.mkarr(r)

    def is_same(self, x, y):
        if x is None or y is None:
            if x is None and y is None:
                return TRUE
            o = y if x is None else x
            if isinstance(o, Opq):
                return flag(raw_atom('opaque', 'isnone', self.sym()))
            return FALSE
        if isinstance(x, Arr) and isinstance(y, Arr) and x.dt == 'b' and y.dt == 'b':
            # 'flag is True': a numpy bool is never the Python singleton; Python bools compare by value
            c = ite(x.body, y.body, Not(y.body))
            if x.py and y.py:
                return c
            return FALSE
        if isinstance(x, Opq) or isinstance(y, Opq):
            return flag(raw_atom('opaque', 'is', self.sym()))
        return B(self.same_val(x, y))

    def pystr(self, v):
        """numpy strings as plain ones"""
        if isinstance(v, Arr) and v.dt == 's' and v.ndim == 0:
            a = single_atom(v.body)
            return a.args[0] if a is not None and a.op == 'str' else SymStr(v.body)
        if isinstance(v, SymStr):
            a = single_atom(v.t) if isinstance(v.t, P) else None
            return a.args[0] if a is not None and a.op == 'str' else v
        return v

    def inlist(self, cell, x):
        """whether a string is in a list of unknown strings"""
        if cell.parts:
            r = FALSE
            for p in cell.parts:
                if isinstance(p, SymListCell):
                    r = Or(r, self.inlist(p, x))
                else:
                    for i in p.items:
                        r = Or(r, self.eq_term(i, x))
            return r
        v = fresh_ix()
        e = cell.elem(atomP(v))
        kt = self.keyterm(x)
        body = self.lib.strterm(e) if isinstance(e, (str, SymStr)) else self.arr(e).body
        a, k = single_atom(body), single_atom(kt)
        if a is not None and k is not None and a.op == 'in' and k.op == 'in' and a.args[:2] == k.args[:2] and len(a.args) == 3 and eq(a.args[2], atomP(v)):
            return TRUE         # an element of the list itself
        return self.assume_flag(raw_atom('inlist', mklam([v], body), kt))

    def py_eq(self, x, y):
        """equality of non-numeric values; None when numeric"""
        x, y = self.pystr(x), self.pystr(y)

        def isnum(v):
            return isinstance(v, Arr) and v.dt != 's' or self.is_array(v)
        if isnum(x) and isnum(y):
            return None
        if isnum(x) or isnum(y):
            o = y if isnum(x) else x
            if isinstance(o, Ref) and isinstance(self.heap.get(o.cid), (ListCell, SymListCell)) and \
                    (self.is_array(x) or self.is_array(y)):
                return None
            if isinstance(o, (Tup,)) and (self.is_array(x) or self.is_array(y)):
                return None
            return FALSE
        if isinstance(x, Tup) and isinstance(y, Tup):
            if len(x.items) != len(y.items):
                return FALSE
            r = TRUE
            for a, b in zip(x.items, y.items):
                r = And(r, self.eq_term(a, b))
            return r
        if self.same_val(x, y):
            return TRUE
        if isinstance(x, str) and isinstance(y, str):
            return FALSE
        if isinstance(x, (str, SymStr)) and isinstance(y, (str, SymStr)):
            tx = x.t if isinstance(x, SymStr) else atomP(raw_atom('str', x))
            ty = y.t if isinstance(y, SymStr) else atomP(raw_atom('str', y))
            return self.assume_flag(streq_atom(tx, ty))
        if isinstance(x, Ref) and isinstance(y, Ref):
            cx, cy = self.heap.get(x.cid), self.heap.get(y.cid)
            if isinstance(cx, (ListCell, SymListCell)) and isinstance(cy, (ListCell, SymListCell)):
                if isinstance(cx, ListCell) and isinstance(cy, ListCell):
                    if len(cx.items) != len(cy.items):
                        return FALSE
                    r = TRUE
                    for a, b in zip(cx.items, cy.items):
                        r = And(r, self.eq_term(a, b))
                    return r
                if isinstance(cx, SymListCell) and isinstance(cy, SymListCell):
                    nx, ny = self.list_name(cx), self.list_name(cy)
                    if nx and ny:
                        if nx == ny:
                            return TRUE
                        return self.assume_flag(raw_atom('listeq', *sorted([nx, ny])))
                return self.assume_flag(raw_atom('listeq?', 'list%d' % x.cid, 'list%d' % y.cid))
        return FALSE

    def list_name(self, cell):
        """the input list of names this one is, also where it went through a file"""
        if cell.name:
            return cell.name
        try:
            v = fresh_ix()
            x = cell.elem(atomP(v))
            e = single_atom(x.t if isinstance(x, SymStr) else x.body if isinstance(x, Arr) and x.ndim == 0 else None)
        except (Unmodelled, AttributeError, TypeError):
            return None
        if e is not None and e.op == 'in' and len(e.args) == 3 and eq(e.args[2], atomP(v)) and e.args[0] in LISTDIM and eq(LISTDIM[e.args[0]], cell.count):
            return e.args[0]
        return None

    def assume_flag(self, atom):
        if atom.op == 'streq':
            # the name at the position of a name in a list is that name
            for a, b in (atom.args, atom.args[::-1]):
                e = single_atom(a)
                k = single_atom(e.args[2]) if e is not None and e.op == 'in' and len(e.args) == 3 and isinstance(e.args[2], P) else None
                if k is not None and k.op == 'index' and eq(k.args[1], b) and eq(lam_open(k.args[0], [e.args[2]]), a):
                    return TRUE
        for pat, val in self.assumed.items():
            if pat == atom.op or (isinstance(pat, tuple) and pat[0] == atom.op and
                                  tuple(pat[1:]) == tuple(atom.args[:len(pat) - 1])):
                return B(val)
        return flag(atom)

    def eq_term(self, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            raise Unmodelled('comparison of joins')
        r = self.py_eq(a, b)
        if r is not None:
            return r
        return cmp('==', self.arr(a).body, self.arr(b).body)

    def contains(self, c, x, node):
        """x in c"""
        if isinstance(c, str) and isinstance(x, str):
            return B(x in c)
        r = self.lib.contains(self, c, x, node)
        if r is not None:
            return r
        cid = self.dictcid(c)
        if cid is not None:
            cell = self.heap[cid]
            r = FALSE
            self.event('dict-in', node, key=x, cid=cid)
            for k, v in cell.items:
                if isinstance(k, str) and k == '#carried':
                    r = Or(r, flag(raw_atom('carrin', cid, self.keyterm(x))))
                    continue
                if isinstance(k, DKeys):
                    r = Or(r, self.keys_hit(k, v, x)[0])
                    continue
                if isinstance(k, CondItem):
                    r = Or(r, flag(raw_atom('inloopdict', cid, self.keyterm(x))))
                    continue
                b = And(self.eq_term(k, x), Not(self.unbound_cond(v)))
                r = Or(r, b)
            if cell.sym is not None:
                r = Or(r, self.assume_flag(raw_atom('indict', cell.sym, self.keyterm(x))))
            return r
        items = self.concrete(c)
        if items is not None:
            r = FALSE
            for it in items:
                r = Or(r, self.eq_term(it, x))
            return r
        if isinstance(c, Ref) and isinstance(self.heap.get(c.cid), SymListCell):
            cell = self.heap[c.cid]
            return self.inlist(cell, x)
        raise Unmodelled('in')

    def keyterm(self, v):
        if isinstance(v, SymStr):
            return v.t
        if isinstance(v, str):
            return atomP(raw_atom('str', v))
        if isinstance(v, Arr) and v.ndim == 0:
            return v.body
        if isinstance(v, ClassV):
            return atomP(raw_atom('str', 'class ' + v.name))
        if isinstance(v, Opq):
            return self.opaque_term('key')
        raise Unmodelled('dict key %r' % (v,))

    def dictcid(self, v):
        if isinstance(v, Ref):
            c = self.heap.get(v.cid)
            if isinstance(c, DictCell):
                return v.cid
            if isinstance(c, InstCell) and '#dict' in c.attrs:
                return c.attrs['#dict'].cid
        return None

    # -------------------------------------------------------------- attributes
    def e_Attribute(self, e):
        o = self.eval(e.value)
        return self.getattr(o, e.attr, e)

    def getattr(self, o, name, node):
        return self.on(o, lambda v: self.getattr1(v, name, node))

    def getattr1(self, v, name, node):
        if isinstance(v, Opq):
            return v
        if isinstance(v, ModV):
            env = self.mod_env(v)
            if name in env:
                return env[name]
            full = v.name + '.' + name
            if full in self.mods:
                return self.load_module(full)
            self.event('missing-name', node, name=full, what='attribute of module')
            self.do_raise(ExcV('AttributeError', (name,)), node)
            raise Dead()
        if isinstance(v, Ext):
            self.event('extname', node, name=v.name + '.' + name)
            return self.lib.ext_attr(self, v, name, node)
        if isinstance(v, ClassV):
            if name == '__name__':
                return v.name
            a, c = v.lookup(name)
            if a is not None:
                if isinstance(a, Lib) and a.kind in ('staticmethod', 'classmethod'):
                    return a.d['f'] if a.kind == 'staticmethod' else BoundM(a.d['f'], v)
                return a
            if isinstance(v.meta, ClassV):
                a, c = v.meta.lookup(name)
                if isinstance(a, FuncV):
                    return BoundM(a, v)
                if a is not None:
                    return a
            return self.missing_attr(v, name, node)
        if isinstance(v, SuperV):
            inst = v.self_
            if isinstance(inst, ClassV):
                if name == '__call__':
                    return LibM(inst, 'type.__call__')
                raise Unmodelled('super on class')
            cls = self.heap[inst.cid].cls
            mro = cls.mro()
            k = mro.index(v.cls)
            for c in mro[k + 1:]:
                if isinstance(c, ClassV) and name in c.attrs:
                    return BoundM(c.attrs[name], inst)
                if isinstance(c, Ext) and name == '__init__':
                    return Lib('noop')
            if name == '__init__':
                return Lib('noop')
            if '#dict' in self.heap[inst.cid].attrs:
                return LibM(self.heap[inst.cid].attrs['#dict'], name)
            return self.missing_attr(v, name, node)
        if isinstance(v, Ref):
            c = self.heap.get(v.cid)
            if isinstance(c, InstCell):
                if name in c.attrs:
                    return self.check_attr(c.attrs[name], v, name, node)
                a, cl = c.cls.lookup(name)
                if a is not None:
                    if isinstance(a, FuncV):
                        return BoundM(a, v)
                    if isinstance(a, Lib) and a.kind == 'property':
                        return self.call_func(a.d['f'], [v], {}, node)
                    if isinstance(a, Lib) and a.kind == 'staticmethod':
                        return a.d['f']
                    if isinstance(a, Lib) and a.kind == 'classmethod':
                        return BoundM(a.d['f'], c.cls)
                    return a
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    raise Unmodelled('__dict__')
                if '#dict' in c.attrs:
                    return LibM(c.attrs['#dict'], name)
                ga, gc = c.cls.lookup('__getattr__')
                if ga is not None:
                    return self.call_func(ga, [v, name], {}, node)
                return self.missing_attr(v, name, node)
            return self.lib.cell_attr(self, v, c, name, node)
        if v is None:
            self.event('type-error', node, msg='attribute %s of None' % name)
            self.do_raise(ExcV('AttributeError', (name,)), node)
            raise Dead()
        return self.lib.val_attr(self, v, name, node)

    def check_attr(self, v, o, name, node):
        v = self.resolve(v)
        c = self.unbound_cond(v)
        if c is not FALSE and And(self.pc, c) is not FALSE:
            self.event('missing-attr', node, name=name, cls=self.heap[o.cid].cls.name, cond=And(self.pc, c))
            self.do_raise(ExcV('AttributeError', (name,)), node, c)
            v = self.drop_unbound(v)
        return v

    def missing_attr(self, v, name, node):
        cn = v.name if isinstance(v, ClassV) else (self.heap[v.cid].cls.name if isinstance(v, Ref) else repr(v))
        self.event('missing-attr', node, name=name, cls=cn, cond=self.pc)
        self.do_raise(ExcV('AttributeError', (name,)), node)
        raise Dead()

    def setattr(self, o, name, v, node):
        def go(x):
            if isinstance(x, Ref) and isinstance(self.heap.get(x.cid), InstCell):
                c = self.heap[x.cid]
                at = dict(c.attrs)
                at[name] = v
                self.heap[x.cid] = InstCell(c.cls, at, c.origin)
                self.copy_updated(x.cid)
                self.event('setattr', node, obj=x, name=name, cls=c.cls.name, value=v)
                return
            if isinstance(x, Opq):
                return
            if isinstance(x, (ClassV, ModV, Ext)):
                self.event('global-write', node, target=repr(x), name=name)
                if isinstance(x, ClassV):
                    x.attrs[name] = v
                elif isinstance(x, ModV):
                    self.mod_env(x)[name] = v
                return
            self.lib.set_attr(self, x, name, v, node)
        self.on(o, go)

    # -------------------------------------------------------------- subscripts
    def eval_index(self, s):
        if isinstance(s, ast.Tuple):
            return IndexTuple([self.eval_index1(x) for x in s.elts])
        return self.eval_index1(s)

    def eval_index1(self, s):
        if isinstance(s, ast.Slice):
            return Lib('slice', start=self.eval(s.lower) if s.lower is not None else None,
                       stop=self.eval(s.upper) if s.upper is not None else None,
                       step=self.eval(s.step) if s.step is not None else None)
        return self.eval(s)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.subscript(o, k, e)

    def e_Slice(self, e):
        return self.eval_index1(e)

    def subscript(self, o, k, node):
        if isinstance(k, IndexTuple):
            return self.on_many([o] + list(k.items), lambda x, *kk: self.subscript1(x, list(kk), node, True))
        return self.on_many([o, k], lambda x, kk: self.subscript1(x, kk, node, False))

    def items_of(self, k, tuple_index):
        """index value(s) -> item list for arrays"""
        ks = list(k) if tuple_index else ([k] if not isinstance(k, Tup) else list(k.items))
        items = []
        for x in ks:
            x = self.resolve(x)
            if isinstance(x, Lib) and x.kind == 'slice':
                f = []
                for part in ('start', 'stop', 'step'):
                    p = x.d[part]
                    if p is None:
                        f.append(None)
                    else:
                        pa = self.arr(p)
                        f.append(pa.body)
                items.append(('slice', f[0], f[1], f[2]))
            elif isinstance(x, Lib) and x.kind == 'ellipsis':
                items.append(('ell',))
            elif x is None:
                items.append(('new',))
            elif isinstance(x, Opq):
                raise Unmodelled('opaque index')
            else:
                a = self.arr(x)
                if a.dt == 'b':
                    if a.ndim == 0:
                        # scalar boolean index: adds an axis of length 0 or 1
                        items.append(('bool0', a))
                    else:
                        items.append(('mask', a))
                elif a.ndim == 0:
                    if a.dt not in ('i',) and not isint(a.body):
                        self.event('type-error', None, msg='non-integer index', what=brief(a.body, 80))
                    items.append(('int', a.body))
                else:
                    items.append(('arr', a))
        return items

    def subscript1(self, o, k, node, tuple_index):
        if isinstance(o, Opq):
            return o
        if isinstance(o, Tup) or isinstance(o, str):
            return self.seq_index(list(o.items) if isinstance(o, Tup) else o, k, node, isinstance(o, Tup))
        r = self.lib.subscript(self, o, k, node, tuple_index)
        if r is not NotImplemented:
            return r
        cid = self.dictcid(o)
        if cid is not None:
            return self.dict_get(cid, k, node, o)
        if isinstance(o, Ref):
            c = self.heap.get(o.cid)
            if isinstance(c, ListCell):
                if any(isinstance(x, Carried) for x in c.items):
                    raise NeedPeel()
                return self.seq_index(list(c.items), k, node, False)
            if isinstance(c, SymListCell):
                if isinstance(k, Lib):
                    raise Unmodelled('slice of list')
                return c.elem(normint(self.arr(k).body, c.count))
            if isinstance(c, RecCell):
                if isinstance(k, str):
                    if k not in c.fields:
                        self.event('missing-field', node, name=k, have=sorted(c.fields))
                        self.do_raise(ExcV('ValueError', ('no field of name ' + k,)), node)
                        raise Dead()
                    return self.rec_view(o, k)
                if isinstance(k, Arr) and k.ndim == 0:
                    return Lib('recrow', rec=o, row=k)
                raise Unmodelled('record index')
            if isinstance(c, (ArrCell, ViewCell)):
                items = self.items_of(k, tuple_index)
                items = [it for it in items if True]
                if any(it[0] == 'bool0' for it in items):
                    raise Unmodelled('scalar boolean index')
                self.check_masks(self.arr(o), items)
                basic = all(it[0] in ('int', 'slice', 'new', 'ell') for it in items)
                a = getitem(self.arr(o), items)
                if basic and a.ndim:
                    return self.view(o, lambda b, items=items: getitem(b, items),
                                     lambda b, nv, items=items: store(b, items, nv))
                return self.mkarr(a)
            if isinstance(c, InstCell):
                g, _ = c.cls.lookup('__getitem__')
                if g is not None:
                    return self.call_func(g, [o, k], {}, node)
        if isinstance(o, Arr):
            items = self.items_of(k, tuple_index)
            if any(it[0] == 'bool0' for it in items):
                raise Unmodelled('scalar boolean index')
            if o.py:
                self.event('type-error', node, msg='subscript of a scalar')
                self.do_raise(ExcV('TypeError', ('not subscriptable',)), node)
                raise Dead()
            return self.mkarr(getitem(o, items))
        if o is None:
            self.event('type-error', node, msg='subscript of None')
            self.do_raise(ExcV('TypeError', ('not subscriptable',)), node)
            raise Dead()
        raise Unmodelled('subscript of %r' % (o,))

    def check_masks(self, a, items):
        items = expand_items(a, items)
        p = 0
        for it in items:
            if it[0] == 'mask':
                check_mask(a, p, it[1])
                p += it[1].ndim
            elif it[0] != 'new':
                p += 1

    def rec_view(self, o, k):
        return self.heap[o.cid].fields[k][2]

    def seq_index(self, items, k, node, istup):
        if isinstance(k, Lib) and k.kind == 'slice':
            f = []
            for part in ('start', 'stop', 'step'):
                p = k.d[part]
                if p is None:
                    f.append(None)
                else:
                    c = const(self.arr(p).body)
                    if c is None:
                        raise Unmodelled('symbolic slice of sequence')
                    f.append(int(c))
            r = items[slice(*f)]
            return Tup(r) if istup else (r if isinstance(items, str) else self.new(ListCell(r)))
        kb = self.arr(k).body
        c = const(kb) if isinstance(kb, P) else None
        if c is None:
            if isinstance(items, str):
                raise Unmodelled('string index')
            return self.pick(items, kb)
        if not (-len(items) <= c < len(items)):
            self.event('index-error', node, msg='index %s out of range for length %d' % (c, len(items)))
            self.do_raise(ExcV('IndexError'), node)
            raise Dead()
        v = items[int(c)]
        if isinstance(v, CondItem):
            raise Unmodelled('conditional list element')
        return v

    def dict_get(self, cid, k, node, o):
        cell = self.heap[cid]
        self.event('dict-get', node, key=k, cid=cid)
        hit = FALSE
        val = None
        found = []
        for kk, v in cell.items:
            if isinstance(kk, str) and kk == '#carried':
                continue
            if isinstance(kk, DKeys):
                c, pos = self.keys_hit(kk, v, k)
                if c is not FALSE:
                    found.append((c, self.keys_value(kk, v, k, pos)))
                continue
            if isinstance(kk, CondItem):
                continue
            c = And(self.eq_term(kk, k), Not(self.unbound_cond(v)))
            if c is FALSE:
                continue
            found.append((c, self.drop_unbound(v)))
        if any(isinstance(kk, DKeys) for kk, v in cell.items):
            found.reverse()     # keys entered later count
        res = UNBOUND
        hit = Or(*[c for c, v in found]) if found else FALSE
        if hit is not TRUE and cell.sym is not None:
            res = self.lib.symdict_get(self, cell.sym, k, node)
            miss = FALSE
        elif any(isinstance(kk, CondItem) and not isinstance(kk, DKeys) or kk == '#carried' for kk, v in cell.items if not isinstance(kk, (Arr, SymStr))):
            res = self.lib.symdict_get(self, 'loopdict', k, node)
            miss = FALSE
        else:
            miss = Not(hit)
        if miss is not FALSE and And(self.pc, miss) is not FALSE:
            self.event('key-error', node, key=k, cond=And(self.pc, miss))
            self.do_raise(ExcV('KeyError'), node, miss)
        for c, v in reversed(found):
            res = v if res is UNBOUND else self.merge_val(c, v, res)
        return res

    def store(self, o, k, v, node, tuple_index=False):
        if isinstance(o, Opq):
            return
        r = self.lib.store(self, o, k, v, node, tuple_index)
        if r is not NotImplemented:
            return
        cid = self.dictcid(o)
        if cid is not None:
            if isinstance(o, Ref) and isinstance(self.heap.get(o.cid), InstCell):
                si, _ = self.heap[o.cid].cls.lookup('__setitem__')
                if si is not None:
                    self.call_func(si, [o, k, v], {}, node)
                    return
            self.dict_set(cid, k, v, node)
            return
        if isinstance(o, Ref):
            c = self.heap.get(o.cid)
            if isinstance(c, ListCell):
                kc = const(self.arr(k).body)
                if kc is None:
                    raise Unmodelled('list store')
                self.mutate_check(o.cid, node)
                it = list(c.items)
                it[int(kc)] = v
                self.heap[o.cid] = ListCell(it, c.origin)
                return
            if isinstance(c, (ArrCell, ViewCell)):
                if isinstance(v, Opq):
                    self.mutate_check(o.cid, node)
                    self.havoc(o)
                    return
                items = self.items_of(k, tuple_index)
                if any(it[0] == 'bool0' for it in items):
                    # x[scalar_bool] = v stores everything where the condition holds
                    bs = [it for it in items if it[0] == 'bool0']
                    items = [it for it in items if it[0] != 'bool0'] or [('ell',)]
                    cond = And(*[it[1].body for it in bs])
                    cur = self.arr(o)
                    new = store(cur, items, self.arr(v))
                    self.mutate_check(o.cid, node)
                    self.put_array(o.cid, Arr(cur.axes, ite(cond, new.body, cur.body), cur.dt))
                    return
                self.check_masks(self.arr(o), items)
                self.store_array(o, items, self.arr(v), node)
                return
            if isinstance(c, RecCell) and isinstance(k, str):
                self.rec_set(o, k, v, node)
                return
            if isinstance(c, InstCell):
                g, _ = c.cls.lookup('__setitem__')
                if g is not None:
                    self.call_func(g, [o, k, v], {}, node)
                    return
        raise Unmodelled('store into %r' % (o,))

    def rec_set(self, o, k, v, node, items=None):
        c = self.heap[o.cid]
        if k not in c.fields:
            self.event('missing-field', node, name=k, have=sorted(c.fields))
            self.do_raise(ExcV('ValueError', ('no field of name ' + k,)), node)
            raise Dead()
        self.store_array(c.fields[k][2], items or [('ell',)], self.arr(v), node)

    def dict_set(self, cid, k, v, node):
        cell = self.heap[cid]
        self.mutate_check(cid, node)
        self.event('dict-set', node, key=k, value=v, cid=cid)
        items = []
        done = False
        for kk, vv in cell.items:
            if isinstance(kk, CondItem) or (isinstance(kk, str) and kk == '#carried'):
                items.append((kk, vv))
                continue
            c = self.eq_term(kk, k)
            if c is TRUE:
                items.append((kk, v))
                done = True
            else:
                items.append((kk, vv if c is FALSE else self.merge_val(c, v, vv)))
        if not done:
            items.append((k, v))
        self.heap[cid] = DictCell(items, cell.sym, cell.origin)

    # -------------------------------------------------------------- comprehensions
    def comp(self, e, build):
        fr = self.frames[-1]
        saved = dict(fr.env)
        try:
            return self.comp_gen(e, 0, build)
        finally:
            # comprehension variables are local
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        if n.id in saved:
                            self.frames[-1].env[n.id] = saved[n.id]
                        else:
                            self.frames[-1].env.pop(n.id, None)

    def comp_gen(self, e, gi, build):
        """list of values (python list) or ('sym', count, elem)"""
        g = e.generators[gi]
        it = self.resolve(self.eval(g.iter))
        if isinstance(it, Phi):
            raise Unmodelled('comprehension over join')
        items = self.concrete(it, e)
        lastg = gi == len(e.generators) - 1
        if items is not None:
            out = []
            for x in items:
                keep = TRUE
                if isinstance(x, CondItem):
                    if isinstance(x.c, Atom) or type(x) is not CondItem:
                        raise Unmodelled('conditional element')
                    keep, x = x.c, x.v
                self.assign(g.target, x, e)
                for c in g.ifs:
                    keep = And(keep, self.truth(self.eval(c)))
                keep = restrict(keep, self.pc)
                if keep is FALSE:
                    continue
                if lastg:
                    v = build()
                    if keep is not TRUE:
                        v = CondItem(keep, v)
                    out.append(v)
                else:
                    if keep is not TRUE:
                        raise Unmodelled('conditional nested comprehension')
                    r = self.comp_gen(e, gi + 1, build)
                    if isinstance(r, tuple):
                        raise Unmodelled('nested symbolic comprehension')
                    out.extend(r)
            return out
        seq = self.as_seq(it, e)
        if seq is None:
            raise Unmodelled('comprehension over %r' % (it,))
        if not lastg:
            raise Unmodelled('nested symbolic comprehension')
        n, elem = seq
        keep = TRUE
        iv = fresh_ix('c')
        marks = self.raise_marks()
        pc0 = self.pc
        old = self.ncid
        self.loopctx.append((iv, n))
        try:
            self.assign(g.target, elem(atomP(iv)), e)
            if g.ifs:
                if not isinstance(e, (ast.ListComp, ast.DictComp)):
                    raise Unmodelled('filtered comprehension')
                for c in g.ifs:
                    keep = And(keep, self.truth(self.eval(c)))
                keep = restrict(keep, self.pc)
                self.pc = And(self.pc, keep)
            if keep is not FALSE:
                v = build()
            if g.ifs:
                self.pc = pc0
        finally:
            self.loopctx.pop()
        self.raise_close(marks, iv, n, ZERO)
        if keep is FALSE:
            return []
        if iv.id in self.pc.fv:
            self.pc = And(pc0, Not(exists(n, mklam([iv], And(pc0, Not(self.pc))))))
        if isinstance(v, Ref) and keep is not TRUE:
            cell = self.heap.get(v.cid)
            if isinstance(cell, (ArrCell, ViewCell)):
                v = self.arr(v)
        if keep is not TRUE:
            return ('filt', FiltCell(n, iv, keep, v))
        if self.has_refs(v):
            elem = self.elem_maker(v, iv, lambda k: k <= old)
            return ('sym', n, elem, elem.holder)
        return ('sym', n, lambda k, v=v, iv=iv: self.as_elem(self.subst_val(v, {iv: k})))

    def has_refs(self, v):
        if isinstance(v, Ref):
            return True
        if isinstance(v, (Tup, Phi, CondItem)):
            return any(self.has_refs(x) for x in (v.items if isinstance(v, Tup) else (v.a, v.b) if isinstance(v, Phi) else (v.v,)))
        return False

    def elem_maker(self, v, iv, old):
        """elements of a list built by an iteration that creates objects: each is a copy of what the generic
        iteration made"""
        tmpl = {}

        def walk(x):
            if isinstance(x, Ref):
                if x.cid in tmpl or old(x.cid):
                    return
                c = self.heap.get(x.cid)
                if isinstance(c, (ArrCell, ViewCell)):
                    c = ArrCell(self.arr(x))
                tmpl[x.cid] = c
                if isinstance(c, ListCell):
                    list(map(walk, c.items))
                elif isinstance(c, DictCell):
                    for k, y in c.items:
                        walk(k)
                        walk(y)
                elif isinstance(c, InstCell):
                    list(map(walk, c.attrs.values()))
                elif not isinstance(c, ArrCell):
                    raise Unmodelled('list of %s' % type(c).__name__)
            elif isinstance(x, Tup):
                list(map(walk, x.items))
            elif isinstance(x, Phi):
                walk(x.a)
                walk(x.b)
            elif isinstance(x, CondItem):
                walk(x.v)
        walk(v)
        holder = []

        def elem(k):
            made = {}
            m = {iv: k}

            def inst(x):
                if isinstance(x, Ref):
                    if x.cid not in tmpl:
                        return x
                    if x.cid not in made:
                        made[x.cid] = self.new(ArrCell(Opq('?')))
                        c = self.subst_cell(tmpl[x.cid], m)
                        if isinstance(c, ListCell):
                            c = ListCell([inst(y) for y in c.items], c.origin)
                        elif isinstance(c, DictCell):
                            c = DictCell([(inst(a), inst(b)) for a, b in c.items], c.sym, c.origin)
                        elif isinstance(c, InstCell):
                            c = InstCell(c.cls, {a: inst(b) for a, b in c.attrs.items()}, c.origin)
                        self.heap[made[x.cid].cid] = c
                        self.copies[made[x.cid].cid] = (holder,)
                    return made[x.cid]
                if isinstance(x, Tup):
                    return Tup([inst(y) for y in x.items])
                if isinstance(x, Phi):
                    return Phi(x.c, inst(x.a), inst(x.b))
                if isinstance(x, CondItem):
                    return type(x)(x.c, inst(x.v)) if type(x) is CondItem else x
                return x
            return inst(self.subst_val(v, m))
        elem.holder = holder
        return elem

    def as_elem(self, v):
        if isinstance(v, Arr) and v.ndim:
            return self.new(ArrCell(v))
        return v

    def e_ListComp(self, e):
        r = self.comp(e, lambda: self.eval(e.elt))
        if isinstance(r, tuple) and r[0] == 'filt':
            return self.new(r[1])
        if isinstance(r, tuple):
            l = self.new(SymListCell(r[1], r[2], None))
            if len(r) > 3:
                r[3].append(l.cid)
            return l
        return self.new(ListCell(r))

    e_SetComp = e_ListComp

    def e_GeneratorExp(self, e):
        r = self.comp(e, lambda: self.eval(e.elt))
        if isinstance(r, tuple):
            return SeqV(r[1], r[2])
        return self.new(ListCell(r))

    def e_DictComp(self, e):
        r = self.comp(e, lambda: Tup([self.eval(e.key), self.eval(e.value)]))
        if isinstance(r, tuple) and r[0] == 'filt' and self.plain(r[1].v.items[1]):
            f = r[1]
            return self.new(DictCell([(DKeys(f.n, f.iv, f.c, f.v.items[0], False), f.v.items[1])]))
        if isinstance(r, tuple) and r[0] == 'sym':
            iv = fresh_ix('c')
            kv = r[2](atomP(iv))
            if isinstance(kv, Tup) and len(kv.items) == 2 and self.plain(kv.items[1]):
                return self.new(DictCell([(DKeys(r[1], iv, TRUE, kv.items[0], False), kv.items[1])]))
        if isinstance(r, tuple):
            raise Unmodelled('symbolic dict comprehension')
        return self.new(DictCell([(t.items[0], t.items[1]) for t in r]))

    def transposed(self, v, node):
        """zip(*rows) of a symbolic number of rows of known length"""
        seq = self.as_seq(v, node)
        if seq is None:
            raise Unmodelled('starred call')
        n, elem = seq
        g = self.resolve(elem(atomP(fresh_ix('c'))))
        w = self.concrete(g) if not isinstance(g, Phi) else None
        if w is None:
            raise Unmodelled('starred call')
        col = lambda j: lambda k: self.concrete(self.resolve(elem(k)))[j]
        return self.new(ListCell([self.new(SymListCell(n, col(j), None)) for j in range(len(w))]))

    # -------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.resolve(self.eval(a.value))
                it = self.concrete(sv)
                if it is None and isinstance(f, Ext) and f.name == 'builtins.zip' and len(e.args) == 1:
                    return self.transposed(sv, e)
                if it is None:
                    raise Unmodelled('starred call')
                args.extend(it)
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.eval(k.value))
                cid = self.dictcid(d)
                if cid is None:
                    raise Unmodelled('**call')
                for kk, v in self.heap[cid].items:
                    if not isinstance(kk, str):
                        raise Unmodelled('**call')
                    kw[kk] = v
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        return self.on(f, lambda v: self.call1(v, args, kw, node))

    def call1(self, f, args, kw, node):
        if isinstance(f, Opq):
            return self.unmod('call of opaque value', node)
        if isinstance(f, BoundM):
            if isinstance(f.func, FuncV):
                return self.call_func(f.func, [f.self_] + list(args), kw, node)
            return self.call(f.func, [f.self_] + list(args), kw, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Lib) and f.kind == 'noop':
            return None
        if isinstance(f, Lib) and f.kind == 'pyfunc':
            return f.d['fn'](self, args, kw, node)
        if isinstance(f, Ref) and isinstance(self.heap.get(f.cid), InstCell):
            g, _ = self.heap[f.cid].cls.lookup('__call__')
            if g is not None:
                return self.call_func(g, [f] + list(args), kw, node)
        if f is None or isinstance(f, (str, Arr, Tup)):
            self.event('type-error', node, msg='call of a non-callable')
            self.do_raise(ExcV('TypeError', ('not callable',)), node)
            raise Dead()
        return self.lib.call(self, f, args, kw, node)

    def instantiate(self, cls, args, kw, node):
        key = 'class:' + cls.name
        if key in self.overrides:
            return self.overrides[key](self, cls, args, kw, node)
        if cls.meta is not None and isinstance(cls.meta, ClassV):
            c, _ = cls.meta.lookup('__call__')
            if c is not None:
                return self.call_func(c, [cls] + list(args), kw, node)
        return self.make_instance(cls, args, kw, node)

    def make_instance(self, cls, args, kw, node):
        if self.lib.is_exception_class(cls):
            return ExcV(cls.name, tuple(args), node)
        attrs = {}
        inst = self.new(InstCell(cls, attrs))
        if any(isinstance(c, Ext) and c.name == 'builtins.dict' for c in cls.mro()):
            d = self.new(DictCell())
            self.heap[inst.cid] = InstCell(cls, {'#dict': d})
        init, _ = cls.lookup('__init__')
        if isinstance(init, FuncV):
            self.call_func(init, [inst] + list(args), kw, node)
        elif args or kw:
            raise Unmodelled('constructor arguments')
        return inst

    def bind(self, f, args, kw, node):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        errs = None
        if len(args) > len(names):
            if a.vararg is None:
                errs = 'takes %d positional arguments but %d were given' % (len(names), len(args))
            else:
                env[a.vararg.arg] = Tup(args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup([])
        for n, v in zip(names, args):
            env[n] = v
        extra = []
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    errs = 'got multiple values for argument %s' % k
                env[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                errs = 'got an unexpected keyword argument %s' % k
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new(DictCell(extra))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            env.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in f.kwdefaults:
                    env[x.arg] = f.kwdefaults[x.arg]
                else:
                    errs = 'missing keyword-only argument %s' % x.arg
        for n in names:
            if n not in env:
                errs = 'missing argument %s' % n
        if errs:
            self.event('call-error', node, target=f.name, msg=errs)
            self.do_raise(ExcV('TypeError', (errs,)), node)
            raise Dead()
        return env

    def call_func(self, f, args, kw, node):
        if not isinstance(f, FuncV):
            return self.call(f, args, kw, node)
        if len(self.frames) > self.MAXDEPTH or sum(1 for x in self.frames if x.func is f) >= 6:
            raise Unmodelled('recursion')
        env = self.bind(f, args, kw, node)
        self.event('call', node, target=f.name, args=dict(env))
        ov = self.overrides.get(f.name)
        if ov is not None:
            r = ov(self, f, env, node)
            if r is not NotImplemented:
                return r
        fr = Frame(f, f.mod, env, cls=f.cls, self_=args[0] if args else None,
                   parent=getattr(f, 'frame', None), name=f.name)
        fr.localnames = local_names(f.node)
        if not self.quiet:
            self.touched.add((f.mod.name, f.name))
        self.frames.append(fr)
        try:
            alive = self.exec_block(f.node.body)
            if alive:
                fr.returns.append((self.pc, None, self.heap, f.node, []))
        finally:
            self.frames.pop()
        rets = fr.returns
        if not rets:
            raise Dead()
        pc = Or(*[r[0] for r in rets])
        v, h = rets[-1][1], rets[-1][2]
        for r in reversed(rets[:-1]):
            c = restrict(r[0], pc)
            v = self.merge_val(c, r[1], v)
            h = self.merge_heap(c, r[2], h)
        self.pc = pc
        self.heap = h
        return v

    # -------------------------------------------------------------- entry points
    def run(self, thunk):
        """evaluate thunk() at top level; returns the value or None when never returning"""
        top = Frame(None, None, self.mods["kcorrect"].env, name='<context>')
        top.mod = self.mods['kcorrect']
        self.frames.append(top)
        try:
            return thunk()
        finally:
            self.frames.pop()


class IndexTuple(Val):
    def __init__(self, items):
        self.items = items


_ln = {}


def local_names(node):
    r = _ln.get(id(node))
    if r is None:
        r = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
        _ln[id(node)] = r
    return r


def floordiv(a, b):
    def f(x, y):
        cx, cy = const(x), const(y)
        if cx is not None and cy is not None and cy != 0:
            return num(cx // cy)
        q = mul(x, powE(y, -1))
        if isint(x) and isint(y) and isint(q):
            return q
        return mk('fdiv', x, y)
    return lift(f, b2n(a), b2n(b))


def modE(a, b):
    def f(x, y):
        cx, cy = const(x), const(y)
        if cx is not None and cy is not None and cy != 0:
            return num(cx % cy)
        q = mul(x, powE(y, -1))
        if isint(x) and isint(y) and isint(q):
            return ZERO
        return mk('imod', x, y)
    return lift(f, b2n(a), b2n(b))


def cof_all(e, t, i):
    from .terms import _cofall
    return _cofall(e, t, i)


def _solve(p):
    from .terms import _solvable
    return _solvable(p)


def repl_flag(e, atom, ent):
    t = mkTest('flag', atom)
    return ite(ent, cof_all(e, t, 0), cof_all(e, t, 1))


def own_positions(t, own, vs, known=(), memo=None):
    """t, with the reads of the element being computed itself written as such where the conditions say so"""
    if memo is None:
        if not any(a is not own and a.args[0] == own.args[0] and len(a.args) == len(own.args) for a in atoms(t, lambda a: a.op == own.op)):
            return t
        memo = {}
    k0 = (t, known)
    if k0 not in memo:
        memo[k0] = own_positions1(t, own, vs, known, memo)
    return memo[k0]


def own_positions1(t, own, vs, known, memo):
    if isinstance(t, D):
        from .terms import case
        kids = []
        for st, k in zip(t.test.states, t.kids):
            kn = known
            if st == 'Z' and t.test.kind == 'sgn' and isinstance(t.test.x, P):
                kn += tuple((a, e) for a, e in _solve(t.test.x) if any(a is v for v in vs))
            kids.append(own_positions(k, own, vs, kn, memo))
        if all(a is b for a, b in zip(kids, t.kids)):
            return t
        return case(t.test, kids)
    if not known or not isinstance(t, P):
        return t

    def f(a):
        if a.op != own.op or a is own or a.args[0] != own.args[0] or len(a.args) != len(own.args):
            return None
        args = list(a.args)
        for p, v in enumerate(vs):
            if isinstance(args[p + 1], P) and any(k is v and eq(args[p + 1], e) for k, e in known):
                args[p + 1] = atomP(v)
        return atomP(raw_atom(a.op, *args)) if any(x is not y for x, y in zip(args, a.args)) else None
    return map_atoms(t, f)


def changed_region(body, own):
    """body = ite(c, val, own) with a single leaf val -> (c, val)"""
    ls = leaves(body)
    if is_bool(body):
        return None
    others = [l for l in ls if l is not own]
    if not any(l is own for l in ls) or not others:
        return None

    def region(e):
        if isinstance(e, D):
            from .terms import case
            return case(e.test, [region(k) for k in e.kids])
        return FALSE if e is own else TRUE
    c = region(body)
    return c, restrict(body, c)


def block_region(c, iv, n, lo, vs, dims):
    """the positions written by blocks c(k) for the steps k of a whole axis, where every position of the axis is in some
    block: the part of c that does not speak of the axis.  None where that is not known"""
    at = single_atom(n) if isinstance(n, P) else None
    if at is None or at.op != 'nsteps' or lo is not ZERO:
        return None
    start, stop, step = at.args
    K = const(step)
    if K is None or K <= 0 or K.denominator != 1 or start is not ZERO:
        return None
    for v, d in zip(vs, dims):
        if v.id not in c.fv or not eq(stop, d):
            continue
        q, r = fresh_ix('q'), fresh_ix('r')
        pos = add(mul(num(K), atomP(q)), atomP(r))
        w = subst(c, {v: pos, iv: atomP(q)})
        w = restrict(w, gt0(sub(d, pos)))
        for t in tests(w):
            if t.kind != 'sgn' or not isinstance(t.x, P):
                continue
            ends = [const(subst(t.x, {r: num(e)})) for e in (0, K - 1)]
            if any(e is None for e in ends):
                continue
            sg = lambda e: 'P' if e > 0 else ('Z' if e == 0 else 'N')
            s = set(sg(e) for e in ends)
            if s == {'P'}:
                w = restrict(w, gt0(t.x))
            elif s == {'N'}:
                w = restrict(w, gt0(neg(t.x)))
            elif s == {'P', 'Z'}:
                w = restrict(w, ge0(t.x))
            elif s == {'N', 'Z'}:
                w = restrict(w, ge0(neg(t.x)))
        if w.fv & {q.id, r.id}:
            continue
        if And(c, Not(w)) is FALSE:
            return w
    return None


def block_cover(c, iv, n, lo, vs, dims):
    """do the blocks {c(k, v)} for k in [lo, n) cover the whole axis?
    recognised: v >= K*k and v < min(K*k + K, dim), n = ceil(dim/K)"""
    at = single_atom(n) if isinstance(n, P) else None
    if at is None or at.op != 'nsteps':
        return False
    start, stop, step = at.args
    for v, d in zip(vs, dims):
        if v.id not in c.fv:
            continue
        if not (start is ZERO and eq(stop, d)):
            return False
        V = atomP(v)
        I = mul(atomP(iv), step)
        want = And(ge0(sub(V, I)), gt0(sub(add(I, step), V)))
        # the bound by dim holds for every valid index: restrict both under V < dim
        inside = gt0(sub(d, V))
        a = And(c, inside)
        b = And(want, inside)
        if a is b or eq(a, b):
            return True
        # stop may be written as a conditional: compare in both cases
        t = gt0(sub(add(I, step), d))
        ok = True
        for cc in (t, Not(t)):
            x = restrict(c, cc)
            y = want
            if cc is t:
                y = ge0(sub(V, I))
                x2 = restrict(x, gt0(sub(d, V)))
                y2 = restrict(y, gt0(sub(d, V)))
                ok = ok and (x2 is y2 or eq(x2, y2))
            else:
                ok = ok and (x is y or eq(x, y))
        return ok
    return False
