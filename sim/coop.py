"""Cooperative scheduling of threads and simulated processes.

Tasks are real threads, but only the one that holds the baton runs.  The baton
may change hands at a point: before a statement (sometimes after a call) in the
target's instrumented files, at a call into the MLIR binding, at an operation
on a lock or a file.  Which task runs next is
decided by the scenario's plan alone: ``plan`` is a list of [step, pick]; at
the step-th point the pick-th runnable task goes on.

Every task belongs to a process.  A process has its own copy of the target's
modules, its own sys.stderr and its own pid, which are in place whenever one of
its tasks holds the baton.
"""

import _thread
import ast
import builtins
import os
import sys
import threading
import traceback

from . import core, overlay
from .core import SimUnsupported, Violation

REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock
REAL_GETPID = os.getpid
WATCHDOG = 40.0

_current = None  # the active scheduler


class Killed(BaseException):
    """Unwinds a task of a run that is over, or of a process that died."""


class Terminal:
    """A process's original sys.stderr."""

    def __init__(self, name):
        self.name, self.parts = name, []
        self.encoding = "utf-8"
        self.closed = False

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        return "".join(self.parts)


class Proc:
    """One simulated process."""

    def __init__(self, pid, imports):
        self.pid = pid
        self.terminal = Terminal(f"stderr{pid}")
        self.stdout = Terminal(f"stdout{pid}")
        self.err, self.out = self.terminal, self.stdout
        self.dead = False
        self.attic = {}
        self.models = {}
        self.mods = load_modules(imports, self)

    def __getitem__(self, name):
        return self.mods[name]


def load_modules(imports, proc=None):
    """A fresh copy of the target's modules; its locks are the simulator's."""
    import importlib

    saved = overlay.detach_target_modules()
    out, err = sys.stdout, sys.stderr
    if proc is not None:
        sys.stdout, sys.stderr = proc.stdout, proc.terminal
    threading.Lock, threading.RLock = SimLock, SimRLock
    try:
        for name in imports:
            importlib.import_module(name)
        return overlay.detach_target_modules()
    finally:
        threading.Lock, threading.RLock = REAL_LOCK, REAL_RLOCK
        sys.stdout, sys.stderr = out, err
        overlay.attach_target_modules(saved)


class Task:
    def __init__(self, sched, proc, name, fn):
        self.sched, self.proc, self.name, self.fn = sched, proc, name, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.blocked = None  # the lock it waits for
        self.error = None
        self.thread = None

    def body(self):
        self.sem.acquire()
        sched = self.sched
        try:
            if sched.abort is None and not self.proc.dead:
                sched.enter(self)
                self.fn(self)
        except Killed:
            pass
        except BaseException as e:  # noqa: B902 - judged by the caller
            self.error = e
            sched.failed(self, e)
        finally:
            self.done = True
            sched.leave(self)


class Scheduler:
    def __init__(self, run, plan, fine=False, max_steps=200000):
        self.run = run
        self.plan = {}
        for e in plan or []:
            self.plan.setdefault(int(e[0]), int(e[1]))
        self.fine = fine
        self.steps = 0
        self.max_steps = max_steps
        self.switches = 0
        self.tasks = []
        self.cur = None
        self.abort = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.trail = []
        self.last = {}
        self.atomic = 0

    # -- set-up

    def spawn(self, proc, name, fn):
        t = Task(self, proc, name, fn)
        self.tasks.append(t)
        return t

    def go(self):
        """Runs all tasks to completion."""
        global _current
        _current = self
        threading.Lock, threading.RLock = _lock_factory, _rlock_factory
        os.getpid = self._getpid
        out, err = sys.stdout, sys.stderr
        saved = overlay.detach_target_modules()
        try:
            for t in self.tasks:
                t.thread = threading.Thread(target=t.body, daemon=True)
                t.thread.start()
            self._dispatch(None)
            if not self.main.acquire(timeout=WATCHDOG):
                self.abort = SimUnsupported("a task blocked outside the simulator")
        finally:
            self._store()
            _current = None
            threading.Lock, threading.RLock = REAL_LOCK, REAL_RLOCK
            os.getpid = REAL_GETPID
            overlay.attach_target_modules(saved)
            sys.stdout, sys.stderr = out, err
        if isinstance(self.abort, SimUnsupported):
            raise self.abort
        for t in self.tasks:
            t.thread.join(WATCHDOG)
        self.run.steps += self.steps
        if self.switches:
            self.run.probe("context switches", self.switches)
        if self.abort is not None:
            raise self.abort

    # -- process context

    def _getpid(self):
        return self.cur.proc.pid if self.cur is not None else REAL_GETPID()

    def _store(self):
        if self.cur is not None:
            p = self.cur.proc
            p.err, p.out = sys.stderr, sys.stdout
            p.mods = overlay.detach_target_modules()

    def enter(self, task):
        """The task takes the baton."""
        if self.cur is not None and self.cur.proc is task.proc:
            self.cur = task
            return
        if self.cur is not None:
            self._store()
        self.cur = task
        overlay.attach_target_modules(task.proc.mods)
        sys.stderr, sys.stdout = task.proc.err, task.proc.out

    def failed(self, task, e):
        if self.abort is None and isinstance(e, (Violation, SimUnsupported)):
            self.abort = e
        elif self.abort is None and not getattr(e, "sim_expected", False):
            self.abort = e

    def leave(self, task):
        self._dispatch(task)

    def kill_process(self, proc):
        """The process of the running task dies here and now."""
        proc.dead = True
        raise Killed()

    # -- points

    def active(self):
        return (
            _current is self
            and self.cur is not None
            and self.cur.thread is threading.current_thread()
        )

    def point(self, what):
        if not self.active() or self.atomic:
            return
        me = self.cur
        if self.abort is not None or me.proc.dead:
            raise Killed()
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort = Violation("no-progress", f"no end after {self.steps} steps")
            raise Killed()
        pick = self.plan.get(self.steps)
        if pick is None:
            return
        ready = [t for t in self.tasks if not t.done and t.blocked is None]
        nxt = ready[pick % len(ready)]
        if nxt is not me:
            self.switches += 1
            self.run.log("switch", self.steps, me.name, "->", nxt.name, "at", what)
            self._hand(me, nxt)

    def _hand(self, me, nxt):
        nxt.sem.release()
        me.sem.acquire()
        if self.abort is not None or me.proc.dead:
            raise Killed()
        self.enter(me)

    def _dispatch(self, leaver):
        """Called by a task that ends (or by go())."""
        live = [t for t in self.tasks if not t.done]
        if not live:
            self.main.release()
            return
        ready = [t for t in live if t.blocked is None or self.abort is not None or t.proc.dead]
        if not ready:
            self._deadlock(live)
            ready = live
        if leaver is None or leaver not in self.tasks:
            nxt = ready[self.plan.get(0, 0) % len(ready)]
        else:
            nxt = ready[self.plan.get(self.steps, self.tasks.index(leaver)) % len(ready)]
        nxt.sem.release()

    def _deadlock(self, live):
        if self.abort is None:
            self.abort = Violation(
                "deadlock",
                "; ".join(f"{t.name} waits for a lock held by {t.blocked.holder()}" for t in live),
            )

    def block(self, lock):
        """The running task cannot go on before the lock is free."""
        me = self.cur
        me.blocked = lock
        ready = [t for t in self.tasks if not t.done and t.blocked is None]
        if not ready:
            self._deadlock([t for t in self.tasks if not t.done])
            me.blocked = None
            raise Killed()
        self.run.probe("waits for a lock")
        nxt = ready[self.plan.get(self.steps, 0) % len(ready)]
        self._hand(me, nxt)

    def wake(self, lock):
        for t in self.tasks:
            if t.blocked is lock:
                t.blocked = None


# -------------------------------------------------------------- instrumentation


def _stmt_point(where):
    if _current is not None:
        _current.point(where)


def _expr_point(value, where):
    if _current is not None and _current.fine:
        _current.point(where)
    return value


builtins.__sim_stmt__ = _stmt_point
builtins.__sim_expr__ = _expr_point


class Instrument(ast.NodeTransformer):
    """Adds points to the bodies of functions: before every statement, at the
    end of every block, after every call."""

    def __init__(self, path):
        self.file = os.path.basename(path)
        self.where = []

    def label(self):
        return f"{self.file}:{self.where[-1]}"

    def call(self, name, args, at):
        new = ast.Call(ast.Name(name, ast.Load()), args, [])
        for n in ast.walk(new):
            if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
                ast.copy_location(n, at)
        return new

    def block(self, body, first=0):
        out = body[:first]
        for s in body[first:]:
            out.append(ast.copy_location(ast.Expr(self.call("__sim_stmt__", [ast.Constant(self.label())], s)), s))
            out.append(s)
        last = body[-1]
        if not isinstance(last, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            out.append(ast.copy_location(ast.Expr(self.call("__sim_stmt__", [ast.Constant(self.label())], last)), last))
        return out

    def visit_FunctionDef(self, node):
        if not self.where and any("script" in ast.dump(d) or "jit" in ast.dump(d) for d in node.decorator_list):
            return node
        self.where.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        doc = isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
        node.body = self.block(node.body, 1 if doc else 0)
        self.where.pop()
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in node.body]
        return node

    def visit_Lambda(self, node):
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if not self.where or (isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals")):
            return node
        return self.call("__sim_expr__", [node, ast.Constant(self.label())], node)

    def generic_visit(self, node):
        node = super().generic_visit(node)
        if self.where and isinstance(node, (ast.stmt, ast.ExceptHandler, ast.match_case)):
            for field in ("body", "orelse", "finalbody"):
                b = getattr(node, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    if field == "orelse" and isinstance(node, ast.If) and len(b) == 1 and isinstance(b[0], ast.If):
                        continue
                    setattr(node, field, self.block(b))
        return node


# Not instrumented: large, and without shared state of their own.
PLAIN = {"fx_importer.py", "onnx_importer.py", "fx_decomp_util.py", "abstract_interp_lib_gen.py", "registry.py", "utils.py", "_dynamo_fx_importer.py"}


def instrument(path):
    rel = os.path.relpath(path, core.REPO)
    if not rel.startswith(("python/torch_mlir/", "projects/pt1/python/torch_mlir/")) or os.path.basename(path) in PLAIN:
        return None

    def transform(tree):
        return ast.fix_missing_locations(Instrument(path).visit(tree))

    return transform


class SimRLock:
    """A lock of the code under test."""

    reentrant = True

    def __init__(self):
        self.owner, self.count, self.by = None, 0, None

    def holder(self):
        return getattr(self.by, "name", self.by)

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = threading.get_ident()
        if s is not None and s.active():
            s.point("lock")
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False  # the time-out strikes
            if s is None or not s.active():
                raise SimUnsupported("a lock is held for ever")
            s.block(self)
        self.owner = me
        self.count += 1
        self.by = s.cur if s is not None else None
        return True

    def release(self):
        if not self.count or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            if _current is not None:
                _current.wake(self)

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    # what threading.Condition asks of an RLock
    def _is_owned(self):
        return self.count and self.owner == threading.get_ident()


class SimLock(SimRLock):
    reentrant = False


def _from_repo():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(core.REPO + os.sep)


def _lock_factory():
    return SimLock() if _from_repo() else REAL_LOCK()


def _rlock_factory():
    return SimRLock() if _from_repo() else REAL_RLOCK()
