"""Obligations, verdicts and the task runner shared by all property rules."""
import ast
import os
import signal
import time
import traceback
import multiprocessing as mp
from .interp import *
from .contexts import AnchorError


class Rec(object):
    """one obligation: a rule instantiated at a construct"""
    __slots__ = ('status', 'rule', 'where', 'inst', 'msg')

    def __init__(self, status, rule, where, inst, msg=''):
        self.status, self.rule, self.where, self.inst, self.msg = status, rule, where, inst, msg

    def key(self):
        return '%s | %s' % (self.rule, self.inst)

    def tup(self):
        return (self.status, self.rule, self.where, self.inst, self.msg)


class Out(object):
    """collects the obligations of one task"""

    def __init__(self, prog, tier):
        self.prog, self.tier = prog, tier
        self.recs = []
        self.funcs = set()
        self.nstmts = set()
        self.nevents = 0
        self.ncases = 0
        self._cases = {}

    # ---- verdicts
    def ok(self, rule, inst, where=''):
        self.recs.append(Rec('ok', rule, where, inst))

    def bad(self, rule, inst, msg, where=''):
        self.recs.append(Rec('bad', rule, where, inst, msg))

    def und(self, rule, inst, msg, where=''):
        self.recs.append(Rec('und', rule, where, inst, msg))

    def decide(self, rule, inst, msg, where='', opaque=False):
        """msg None: discharged; otherwise violated, or undecided where opaque terms are involved"""
        if msg is None:
            self.ok(rule, inst, where)
        elif opaque:
            self.und(rule, inst, msg, where)
        else:
            self.bad(rule, inst, msg, where)

    # ---- cases
    def note(self, it):
        self.funcs |= set(it.touched)
        self.nstmts |= set(it.stmts)
        self.nevents += len(it.events)

    def case(self, name):
        from . import suite
        c = suite.build(self.prog, name)
        if c is not None:
            self.ncases += 1
            self.note(c.it)
        return c

    def src(self, dotted):
        return srcpos(self.prog, dotted)


def srcpos(prog, dotted):
    """file:line of a function, method or class named Class.method or function"""
    parts = dotted.split('.')
    for name, (path, tree) in prog.files.items():
        for n in tree.body:
            if getattr(n, 'name', None) == parts[0]:
                node = n
                if len(parts) > 1:
                    for m in getattr(n, 'body', ()):
                        if getattr(m, 'name', None) == parts[1]:
                            node = m
                            break
                    else:
                        continue
                i = path.find('src/kcorrect')
                return '%s:%d (%s)' % (path[i:] if i >= 0 else path, node.lineno, dotted)
    if len(parts) > 1:
        # inherited: look at the bases
        for name, (path, tree) in prog.files.items():
            for n in tree.body:
                if isinstance(n, ast.ClassDef) and n.name == parts[0]:
                    for b in n.bases:
                        bn = ast.unparse(b).split('.')[-1]
                        if bn != parts[0]:
                            r = srcpos(prog, bn + '.' + parts[1])
                            if r:
                                return r
    return dotted


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def run_task(arg):
    label, fn, prog, tier, limit = arg
    out = Out(prog, tier)
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    err = None
    try:
        fn(out)
    except Timeout:
        out.und('analysis', label, 'not finished within %d s' % limit)
    except AnchorError as e:
        err = str(e)
        out.und('anchor', label, str(e))
    except MemoryError:
        out.und('analysis', label, 'out of memory')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out.und('analysis', label, '%s: %s at %s:%d' % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno))
    finally:
        signal.alarm(0)
    return (label, [r.tup() for r in out.recs], sorted(out.funcs), len(out.nstmts), out.nevents, out.ncases, time.time() - t, err, sorted(out.nstmts))


_G = {}


ENOUGH = 40     # tasks that reported a violation; the remaining ones are not run


def _run_index(i):
    label, fn, prog, tier, limit = _G['tasks'][i]
    late = time.time() > _G['deadline']
    if _G['bad'].value >= ENOUGH or late:
        return (label, [('und', 'analysis', '', label, 'not run: ' + ('out of time' if late else 'enough violations were reported by the other tasks'))], [], 0, 0, 0, 0.0, None, [])
    r = run_task(_G['tasks'][i])
    if any(x[0] == 'bad' for x in r[1]):
        with _G['bad'].get_lock():
            _G['bad'].value += 1
    return r


def run_tasks(tasks, prog, tier, limit=240, procs=None, deadline=None):
    """tasks: [(label, fn(out))]; evaluated in forked workers, results in task order"""
    _G['tasks'] = [(l, f, prog, tier, limit) for l, f in tasks]
    _G['bad'] = mp.Value('i', 0)
    _G['deadline'] = time.time() + (deadline or 1e9)
    n = len(tasks)
    procs = procs or max(1, min(8, os.cpu_count() or 1, n))
    if procs == 1 or n == 1:
        return [_run_index(i) for i in range(n)]
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as pool:
        return pool.map(_run_index, range(n), chunksize=1)
