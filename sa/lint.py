"""Whole-program name, attribute and call checks over the syntax trees (independent of any calling context)."""
import ast
import builtins
import json
import os

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'libnames.json')) as _fp:
    LIB = json.load(_fp)
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__class__', '__module__', '__qualname__'}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
OBJ = {n for n in dir(object)} | {'__dict__', '__name__', '__class__'}


def lib_lookup(dotted):
    """'ok', 'missing' or 'unknown' for a dotted library name"""
    parts = dotted.split('.')
    if parts[0] not in LIB:
        return 'unknown', None
    for k in range(len(parts), 0, -1):
        m = '.'.join(parts[:k])
        if m in LIB:
            if LIB[m] is None:
                return 'unknown', None
            rest = parts[k:]
            if not rest:
                return 'ok', None
            if rest[0] not in LIB[m]:
                return 'missing', None
            if len(rest) > 1:
                return 'unknown', None
            return 'ok', LIB[m][rest[0]]
    return 'unknown', None


class Scope(object):
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.names = {}            # name -> list of binding nodes
        self.globals = set()

    def bind(self, name, node):
        self.names.setdefault(name, []).append(node)


def collect(node, scope, scopes):
    """bindings of one scope; nested scopes are put into scopes"""
    def target(t):
        if isinstance(t, ast.Name):
            scope.bind(t.id, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
        elif isinstance(t, ast.Starred):
            target(t.value)
        else:
            visit(t)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            scope.bind(n.name, n)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d)
            sub(n, n.body, 'function', n.args)
        elif isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d)
            sub(n, [n.body], 'function', n.args)
        elif isinstance(n, ast.ClassDef):
            scope.bind(n.name, n)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                visit(d)
            sub(n, n.body, 'class', None)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s = Scope(n, scope, 'function')
            scopes.append(s)
            inner = []
            for g in n.generators:
                inner += [('t', g.target), ('e', g.iter)] + [('e', i) for i in g.ifs]
            inner += [('e', n.elt)] if not isinstance(n, ast.DictComp) else [('e', n.key), ('e', n.value)]
            subvisit(s, inner)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                scope.bind(a.asname or a.name.split('.')[0], n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            scope.globals |= set(n.names)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                scope.bind(n.id, n)
            else:
                scope.names.setdefault('\0uses', []).append(n)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                scope.bind(n.name, n)
            for c in ast.iter_child_nodes(n):
                visit(c)
        else:
            for c in ast.iter_child_nodes(n):
                visit(c)

    def subvisit(s, inner):
        for k, x in inner:
            if k == 't':
                for y in ast.walk(x):
                    if isinstance(y, ast.Name):
                        s.bind(y.id, y)
            else:
                collect(x, s, scopes)

    def sub(n, body, kind, args):
        s = Scope(n, scope, kind)
        scopes.append(s)
        if args is not None:
            for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
                s.bind(a.arg, a)
        for b in body:
            collect(b, s, scopes)

    visit(node)


def resolve(scope, name):
    """scope that binds name, 'builtin' or None"""
    s = scope
    first = True
    while s is not None:
        if name in s.names and (s.kind != 'class' or first):
            return s
        first = False
        s = s.parent
    return 'builtin' if name in BUILTINS else None


def may_assigned_before(fn, name, use):
    """some binding of a local name can be executed before this use (loops allow later ones)"""
    found = [False]

    class Done(Exception):
        pass

    def binds(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name:
                return True
            if isinstance(x, ast.ExceptHandler) and x.name == name:
                return True
            if isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split('.')[0]) == name for a in x.names):
                return True
        return False

    def contains(n):
        return any(x is use for x in ast.walk(n))

    def block(stmts):
        for st in stmts:
            if contains(st):
                if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
                    if binds(st):
                        found[0] = True
                elif isinstance(st, (ast.If, ast.With, ast.Try)):
                    if isinstance(st, ast.With) and any(i.optional_vars is not None and binds(i.optional_vars) for i in st.items):
                        found[0] = True
                    if isinstance(st, ast.Try):
                        inb = any(contains(x) for x in st.body)
                        if not inb and any(binds(x) for x in st.body):
                            found[0] = True
                        if any(contains(h) for h in st.handlers) and any(h.name == name for h in st.handlers):
                            found[0] = True
                        if any(contains(x) for x in st.finalbody) and binds(st):
                            found[0] = True
                        for part in [st.body, st.orelse, st.finalbody] + [h.body for h in st.handlers]:
                            if any(contains(x) for x in part):
                                block(part)
                    else:
                        if isinstance(st, ast.If) and any(isinstance(x, ast.NamedExpr) and x.target.id == name for x in ast.walk(st.test)):
                            found[0] = True
                        for part in ([st.body, st.orelse] if isinstance(st, ast.If) else [st.body]):
                            if any(contains(x) for x in part):
                                block(part)
                elif any(isinstance(x, ast.NamedExpr) and x.target.id == name for x in ast.walk(st)):
                    found[0] = True
                raise Done()
            if binds(st):
                found[0] = True
    try:
        block(fn.body)
    except Done:
        return found[0]
    return True


class Analysis(object):
    def __init__(self, prog):
        self.prog = prog
        self.mods = {}
        for name, (path, tree) in prog.files.items():
            top = Scope(tree, None, 'module')
            scopes = [top]
            for st in tree.body:
                collect(st, top, scopes)
            for s in scopes:            # global declarations bind in the module
                for g in s.globals:
                    for b in s.names.get(g, ()):
                        top.bind(g, b)
            self.mods[name] = (path, tree, top, scopes)
        self.classes = {}
        for name, (path, tree, top, scopes) in self.mods.items():
            for st in tree.body:
                if isinstance(st, ast.ClassDef):
                    self.classes[(name, st.name)] = st

    def where(self, name, node):
        path = self.mods[name][0]
        i = path.find('src/kcorrect')
        return '%s:%d' % (path[i:] if i >= 0 else path, node.lineno)

    # ---- names
    def names(self):
        """(ok count, [(where, instance, message)])"""
        n, bad = 0, []
        for name, (path, tree, top, scopes) in sorted(self.mods.items()):
            star = any(isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names) for x in ast.walk(tree))
            for s in scopes:
                for u in s.names.get('\0uses', ()):
                    n += 1
                    r = resolve(s, u.id)
                    if r is None and not star:
                        bad.append((self.where(name, u), '%s: %s' % (name, u.id), 'the name %s is not defined anywhere' % u.id))
                    elif r is s and s.kind == 'function' and isinstance(s.node, ast.FunctionDef) and u.id not in s.globals:
                        bs = s.names[u.id]
                        if any(isinstance(b, ast.arg) for b in bs):
                            continue
                        if not may_assigned_before(s.node, u.id, u):
                            bad.append((self.where(name, u), '%s.%s: %s' % (name, s.node.name, u.id), 'the local variable %s is used before any assignment to it' % u.id))
        return n, bad

    # ---- library names
    def imports(self, name):
        """local name -> dotted library or package name, per module (all scopes)"""
        path, tree, top, scopes = self.mods[name]
        m = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    if a.asname:
                        m[a.asname] = a.name
                    else:
                        m[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
                for a in x.names:
                    m[a.asname or a.name] = x.module + '.' + a.name
        return m

    def dotted(self, e, scope_names, imp):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name) and e.id in imp:
            return '.'.join([imp[e.id]] + parts[::-1])
        return None

    def library(self):
        n, bad = 0, []
        for name, (path, tree, top, scopes) in sorted(self.mods.items()):
            imp = self.imports(name)
            guarded = set()
            for t in ast.walk(tree):
                if isinstance(t, ast.Try) and any(h.type is None or any(isinstance(y, ast.Name) and y.id in ('ImportError', 'ModuleNotFoundError', 'AttributeError', 'Exception') for y in ast.walk(h.type)) for h in t.handlers):
                    for b in t.body:
                        # only small fallback idioms, not whole bodies swallowed by a bare except
                        if isinstance(b, (ast.Import, ast.ImportFrom)) or any(h.type is not None for h in t.handlers):
                            guarded |= set(map(id, ast.walk(b)))
                if isinstance(t, ast.If) and 'hasattr' in ast.unparse(t.test):
                    guarded |= set(map(id, ast.walk(t)))
                if isinstance(t, ast.IfExp) and 'hasattr' in ast.unparse(t.test):
                    guarded |= set(map(id, ast.walk(t)))
            inner = set()
            for x in ast.walk(tree):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute):
                    inner.add(id(x.value))
            shadow = {}
            for s in scopes:
                if s.kind == 'function':
                    for nm in s.names:
                        if nm in imp and not all(isinstance(b, (ast.Import, ast.ImportFrom)) for b in s.names[nm]):
                            for y in ast.walk(s.node):
                                shadow.setdefault(id(y), set()).add(nm)
            for x in ast.walk(tree):
                if id(x) in guarded:
                    continue
                if isinstance(x, ast.ImportFrom) and not x.level and x.module and x.module.split('.')[0] != 'kcorrect':
                    for a in x.names:
                        if a.name == '*':
                            continue
                        n += 1
                        r, _ = lib_lookup(x.module + '.' + a.name)
                        if r == 'missing' and (x.module + '.' + a.name) not in LIB:
                            bad.append((self.where(name, x), '%s: import %s.%s' % (name, x.module, a.name), '%s has no name %s' % (x.module, a.name)))
                elif isinstance(x, ast.Import):
                    for a in x.names:
                        if a.name.split('.')[0] in LIB and a.name.split('.')[0] != 'kcorrect':
                            n += 1
                            r, _ = lib_lookup(a.name)
                            if r == 'missing' and a.name not in LIB:
                                bad.append((self.where(name, x), '%s: import %s' % (name, a.name), 'there is no module %s' % a.name))
                elif isinstance(x, ast.Attribute) and id(x) not in inner:
                    d = self.dotted(x, None, imp)
                    root = x
                    while isinstance(root, ast.Attribute):
                        root = root.value
                    if d is None or d.split('.')[0] == 'kcorrect' or root.id in shadow.get(id(x), ()):
                        continue
                    n += 1
                    r, _ = lib_lookup(d)
                    if r == 'missing':
                        bad.append((self.where(name, x), '%s: %s' % (name, d), 'the installed library has no %s' % d))
                if isinstance(x, ast.Call):
                    d = self.dotted(x.func, None, imp)
                    if d is None or d.split('.')[0] == 'kcorrect':
                        continue
                    r, sig = lib_lookup(d)
                    if r == 'ok' and isinstance(sig, list):
                        n += 1
                        for k in x.keywords:
                            if k.arg is not None and k.arg not in sig:
                                bad.append((self.where(name, x), '%s: %s(%s=)' % (name, d, k.arg), '%s has no parameter %s' % (d, k.arg)))
        return n, bad

    # ---- attributes of the own classes
    def mro(self, key):
        out, todo = [], [key]
        while todo:
            k = todo.pop(0)
            if k is None or k in out:
                continue
            out.append(k)
            c = self.classes.get(k)
            if c is None:
                continue
            imp = self.imports(k[0])
            for b in c.bases:
                todo.append(self.class_of(b, k[0], imp))
        return out

    def class_of(self, e, mod, imp):
        if isinstance(e, ast.Name):
            if (mod, e.id) in self.classes:
                return (mod, e.id)
            d = imp.get(e.id)
        else:
            d = self.dotted(e, None, imp)
        if d:
            m, _, c = d.rpartition('.')
            if (m, c) in self.classes:
                return (m, c)
            return ('', d)
        return ('', ast.unparse(e))

    def attrs(self):
        n, bad = 0, []
        defs, subs = {}, {}
        for k, c in self.classes.items():
            s = set()
            for x in c.body:
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    s.add(x.name)
                for y in ast.walk(x) if not isinstance(x, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        s.add(y.id)
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    self_ = f.args.args[0].arg if f.args.args else None
                    for y in ast.walk(f):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == self_:
                            s.add(y.attr)
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'setattr':
                            s.add('*')
                        if isinstance(y, ast.Attribute) and y.attr == '__dict__':
                            s.add('*')
            defs[k] = s
        allset = set()
        for name, (path, tree, top, scopes) in self.mods.items():
            for y in ast.walk(tree):
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                    allset.add(y.attr)
        for k in self.classes:
            for m in self.mro(k):
                subs.setdefault(m, set()).add(k)
        for k, c in sorted(self.classes.items()):
            known, ext = set(OBJ), False
            for m in self.mro(k) + list(subs.get(k, ())):
                for mm in self.mro(m):
                    if mm in defs:
                        known |= defs[mm]
                    elif mm != ('', 'object'):
                        if mm == ('', 'dict'):
                            known |= set(dir(dict))
                        elif mm == ('', 'type'):
                            known |= set(dir(type))
                        else:
                            ext = True
            if '*' in known or '__getattr__' in known:
                ext = True
            for f in c.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
                    continue
                self_ = f.args.args[0].arg
                tries = set()
                for t in ast.walk(f):
                    if isinstance(t, ast.Try) and any(h.type is not None and 'AttributeError' in ast.unparse(h.type) for h in t.handlers):
                        for b in t.body:
                            tries |= set(map(id, ast.walk(b)))
                    if isinstance(t, ast.If) and 'hasattr' in ast.unparse(t.test):
                        tries |= set(map(id, ast.walk(t)))
                for y in ast.walk(f):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id == self_:
                        n += 1
                        if not ext and y.attr not in known and id(y) not in tries and y.attr not in allset:
                            bad.append((self.where(k[0], y), '%s.%s: %s' % (k[1], f.name, y.attr), '%s objects have no attribute %s' % (k[1], y.attr)))
        return n, bad

    # ---- calls of own functions
    def calls(self):
        n, bad = 0, []
        for name, (path, tree, top, scopes) in sorted(self.mods.items()):
            imp = self.imports(name)
            for cls in [None] + [st for st in tree.body if isinstance(st, ast.ClassDef)]:
                for f in ast.walk(cls) if cls is not None else ast.walk(tree):
                    if not isinstance(f, ast.Call):
                        continue
                    t, skip = None, 0
                    fn = f.func
                    if cls is not None:
                        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self':
                            for m in self.mro((name, cls.name)):
                                c = self.classes.get(m)
                                t = next((x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == fn.attr), None) if c is not None else None
                                if t is not None:
                                    break
                            # a subclass may override with other parameters; the caller must suit the own class
                            skip = 1
                            if t is not None and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in t.decorator_list):
                                skip = 0
                            if t is not None and any(isinstance(d, ast.Name) and d.id == 'property' for d in t.decorator_list):
                                t = None
                    else:
                        if isinstance(fn, ast.Name):
                            t = next((x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == fn.id), None)
                            if t is None and fn.id in imp:
                                t = self.function(imp[fn.id])
                        elif isinstance(fn, ast.Attribute):
                            d = self.dotted(fn, None, imp)
                            t = self.function(d) if d else None
                    if t is None:
                        continue
                    n += 1
                    msg = arity(t, f, skip)
                    if msg:
                        bad.append((self.where(name, f), '%s: %s' % (name, ast.unparse(fn)), msg))
        return n, bad

    def function(self, dotted):
        m, _, fn = dotted.rpartition('.')
        if m in self.mods:
            return next((x for x in self.mods[m][1].body if isinstance(x, ast.FunctionDef) and x.name == fn), None)
        return None


def arity(t, call, skip):
    if t.decorator_list and not all(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in t.decorator_list):
        return None
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = t.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwo = [x.arg for x in a.kwonlyargs]
    if len(call.args) > len(pos) and a.vararg is None:
        return '%s takes %d arguments but %d are given' % (t.name, len(pos), len(call.args))
    got = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg not in pos + kwo and a.kwarg is None:
            return '%s has no parameter %s' % (t.name, k.arg)
        if k.arg in got:
            return 'parameter %s of %s is given twice' % (k.arg, t.name)
        got.add(k.arg)
    req = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    for r in req + [x for x, d in zip(kwo, a.kw_defaults) if d is None]:
        if r not in got:
            return 'parameter %s of %s is not given' % (r, t.name)
    return None
