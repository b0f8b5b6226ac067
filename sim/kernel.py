"""Virtual processes, clock, signals and a worker pool for the e2e framework.

The code under test sees the module attributes it normally uses
(``multiprocess.Pool``, ``signal.alarm``, ``time.sleep`` ...); behind them is
one discrete-event simulator in this process.  Each virtual worker process has
its own copy of the target's modules, its own random generator state, grad mode,
signal handlers, alarm and environment, like a spawned process has; what crosses
a process boundary is pickled with dill, like multiprocess does.

Time is virtual.  Only ``burn`` (work done by a test) and the pool's own delays
consume it.  A pending alarm whose deadline lies inside a ``burn`` is delivered
at that point; ``fire_at`` lets the simulator deliver it at the n-th traced
bytecode of the framework instead.
"""

import heapq
import os
import signal as _signal
import sys
import time as _time
import traceback

import dill
import torch

from . import core, overlay

_real = {}


class SimCrash(BaseException):
    """This virtual process dies here, at once."""

    def __init__(self, code):
        super().__init__(code)
        self.code = code


class Hang(BaseException):
    """Nothing is left that could ever happen; the caller would wait forever."""


class Proc:
    """A virtual process."""

    def __init__(self, kernel, name, parent=False):
        self.k = kernel
        self.name = name
        self.is_parent = parent
        self.clock = kernel.now
        self.handlers = {}
        self.alarm_at = None
        self.alarm_set_at = None
        self.env = dict(os.environ)
        self.modules = None  # None: shares the parent's
        self.rng_state = None
        self.grad = True
        self.dtype = torch.float32
        self.exitcode = None
        self.pid = kernel.next_pid()
        self.fired = []  # times at which an alarm was delivered
        self.daemon = True

    # multiprocess.Process surface
    def is_alive(self):
        return self.exitcode is None

    def join(self, timeout=None):
        if self.exitcode is None:
            self.k.advance_until(lambda: self.exitcode is not None, timeout)

    def terminate(self):
        if self.exitcode is None:
            self.exitcode = -15

    kill = terminate

    @property
    def sentinel(self):
        return self.pid

    @property
    def ident(self):
        return self.pid


class Kernel:
    MAX_POLLS = 5000
    MAX_EVENTS = 20000

    def __init__(self, run, knobs=None):
        self.run = run
        self.knobs = knobs or {}
        self.now = 0.0
        self.seq = 0
        self.q = []
        self.pid = 1000
        self.polls = 0
        self.events = 0
        self.parent = Proc(self, "parent", parent=True)
        self.current = self.parent
        self.pools = []
        self.ncpu = self.knobs.get("ncpu", 4)
        self.jitter = list(self.knobs.get("jitter", []))
        self.jitter_i = 0
        self.trace_fire = None
        self.alarm_log = []
        self.fire_log = []

    def next_pid(self):
        self.pid += 1
        return self.pid

    def delay(self, lo, hi):
        """The next scheduling delay; drawn in advance, so a pure function."""
        if not self.jitter:
            return lo
        x = self.jitter[self.jitter_i % len(self.jitter)]
        self.jitter_i += 1
        return lo + (hi - lo) * x

    # ------------------------------------------------------------ events
    def after(self, dt, f):
        self.at(self.now + dt, f)

    def at(self, t, f):
        self.seq += 1
        heapq.heappush(self.q, (max(t, self.now), self.seq, f))

    def step_until(self, t):
        while self.q and self.q[0][0] <= t:
            self.events += 1
            if self.events > self.MAX_EVENTS:
                raise Hang("too many events")
            when, _, f = heapq.heappop(self.q)
            self.now = max(self.now, when)
            f()
        self.now = max(self.now, t)

    def poll(self):
        self.polls += 1
        if self.polls > self.MAX_POLLS:
            raise Hang("polling without end")

    def advance_until(self, cond, timeout):
        """The parent blocks until cond() or for timeout seconds."""
        self.poll()
        deadline = None if timeout is None else self.now + max(0.0, timeout)
        while not cond():
            if not self.q:
                if deadline is None:
                    raise Hang("blocked forever")
                if self.idle_polls() > 50:
                    raise Hang("nothing left to happen, still polling")
                self.now = deadline
                return
            nxt = self.q[0][0]
            if deadline is not None and nxt > deadline:
                self.step_until(deadline)
                return
            self.step_until(nxt)

    _idle = 0

    def idle_polls(self):
        self._idle += 1
        return self._idle

    # ------------------------------------------------------------ in a process
    def burn(self, dt):
        """The running process works for dt virtual seconds."""
        p = self.current
        if p.is_parent:
            p.clock = max(p.clock, self.now)
        end = p.clock + dt
        while p.alarm_at is not None and p.alarm_at <= end:
            p.clock = max(p.clock, p.alarm_at)
            self.deliver_alarm(p, "in work")
        p.clock = max(p.clock, end)
        if p.is_parent:
            self.step_until(max(self.now, p.clock))

    def deliver_alarm(self, p, where):
        p.alarm_at = None
        p.fired.append(p.clock)
        self.fire_log.append((p.name, p.clock, where))
        h = p.handlers.get(_signal.SIGALRM, _signal.SIG_DFL)
        if h == _signal.SIG_IGN:
            return
        if h in (_signal.SIG_DFL, None):
            raise SimCrash(-_signal.SIGALRM)
        h(_signal.SIGALRM, sys._getframe(1))

    def enter(self, proc):
        """Switch this interpreter to a virtual process; returns the way back."""
        old = self.current
        if old is proc:
            return lambda: None
        saved = self._save()
        old_mods = None
        if proc.modules is not None:
            old_mods = overlay.detach_target_modules()
            sys.modules.update(proc.modules)
        self.current = proc
        self._load(proc)

        def back():
            st = self._save()
            proc.rng_state, proc.grad, proc.dtype = st
            if proc.modules is not None:
                proc.modules = overlay.detach_target_modules()
                sys.modules.update(old_mods)
            self.current = old
            self._restore(saved)

        return back

    def _save(self):
        return (torch.get_rng_state(), torch.is_grad_enabled(), torch.get_default_dtype())

    def _restore(self, st):
        torch.set_rng_state(st[0])
        torch.set_grad_enabled(st[1])
        torch.set_default_dtype(st[2])

    def _load(self, proc):
        if proc.rng_state is None:
            # a fresh process: torch's default generator starts from its default
            # seed, which no test may rely on; vary it by process
            torch.manual_seed(7_000_003 + proc.pid * 101 + self.knobs.get("entropy", 0))
        else:
            torch.set_rng_state(proc.rng_state)
        torch.set_grad_enabled(proc.grad)
        torch.set_default_dtype(proc.dtype)

    def spawn_worker(self, name):
        w = Proc(self, name)
        w.env = dict(os.environ)
        w.modules = {}
        w.clock = self.now
        return w


K = None  # the running kernel


def cur():
    return K


def burn(dt):
    if K is not None:
        K.burn(dt)


def proc():
    return K.current if K is not None else None


# ------------------------------------------------------------------ signals


def _sim_signal(signum, handler):
    if K is None:
        return _real["signal.signal"](signum, handler)
    p = K.current
    old = p.handlers.get(signum, _signal.SIG_DFL)
    p.handlers[signum] = handler
    return old


def _sim_getsignal(signum):
    if K is None:
        return _real["signal.getsignal"](signum)
    return K.current.handlers.get(signum, _signal.SIG_DFL)


def _set_alarm(seconds):
    p = K.current
    if p.is_parent:
        p.clock = max(p.clock, K.now)
    left = 0.0
    if p.alarm_at is not None:
        left = max(0.0, p.alarm_at - p.clock)
    if seconds and seconds > 0:
        p.alarm_at = p.clock + seconds
        p.alarm_set_at = p.clock
        K.alarm_log.append((p.name, p.clock, seconds))
    else:
        p.alarm_at = None
    return left


def _sim_alarm(seconds):
    if K is None:
        return _real["signal.alarm"](seconds)
    if not isinstance(seconds, int):
        seconds = seconds.__index__()  # as the real one: TypeError for floats
    if seconds < 0:
        seconds = 0
    left = _set_alarm(seconds)
    return int(left) + (1 if left > int(left) else 0)


def _sim_setitimer(which, seconds, interval=0.0):
    if K is None:
        return _real["signal.setitimer"](which, seconds, interval)
    return (_set_alarm(seconds), 0.0)


def _sim_getitimer(which):
    if K is None:
        return _real["signal.getitimer"](which)
    p = K.current
    return (max(0.0, p.alarm_at - p.clock) if p.alarm_at is not None else 0.0, 0.0)


def _sim_sleep(dt):
    if K is None:
        return _real["time.sleep"](dt)
    if K.current.is_parent:
        K.poll()
        if not K.q and K.idle_polls() > 200:
            raise Hang("sleeping in a loop, nothing left to happen")
        K.parent.clock = max(K.parent.clock, K.now)
    K.burn(dt)


def _sim_time(name, base):
    def f():
        if K is None:
            return _real["time." + name]()
        fr = sys._getframe(1)
        if not os.path.realpath(fr.f_code.co_filename).startswith(core.REPO):
            return _real["time." + name]()
        p = K.current
        return base + (max(K.now, p.clock) if p.is_parent else p.clock)

    return f


# ------------------------------------------------------------------ pool


class SimAsyncResult:
    def __init__(self, pool, nchunks, single=False, callback=None, error_callback=None):
        self.pool, self.k = pool, pool.k
        self.left = nchunks
        self.value = {}
        self.single = single
        self.ok = True
        self.exc = None
        self.done = nchunks == 0
        self.callback, self.error_callback = callback, error_callback

    def _set(self, i, success, payload):
        if success and self.ok:
            self.value[i] = payload
        elif not success and self.ok:
            self.ok = False
            self.exc = payload
        self.left -= 1
        if self.left == 0:
            self.done = True
            if self.ok and self.callback:
                self.callback(self._result())
            if not self.ok and self.error_callback:
                self.error_callback(self.exc)

    def _result(self):
        if self.single:
            return self.value[0][0]
        out = []
        for i in sorted(self.value):
            out.extend(self.value[i])
        return out

    def ready(self):
        self.k.poll()
        # reading a flag takes no virtual time, but the world goes on meanwhile
        self.k.step_until(self.k.now + self.k.delay(0.0, 0.002))
        return self.done

    def successful(self):
        if not self.done:
            raise ValueError("not ready")
        return self.ok

    def wait(self, timeout=None):
        self.k.advance_until(lambda: self.done, timeout)

    def get(self, timeout=None):
        from multiprocess import TimeoutError as MpTimeout

        self.k.advance_until(lambda: self.done, timeout)
        if not self.done:
            raise MpTimeout
        if self.ok:
            return self._result()
        raise self.exc


class SimIter:
    """imap / imap_unordered"""

    def __init__(self, pool, n, ordered):
        self.pool, self.k, self.n, self.ordered = pool, pool.k, n, ordered
        self.got = {}
        self.order = []
        self.i = 0

    def _set(self, i, success, payload):
        self.got[i] = (success, payload)
        self.order.append(i)

    def __iter__(self):
        return self

    def next(self, timeout=None):
        from multiprocess import TimeoutError as MpTimeout

        if self.i >= self.n:
            raise StopIteration
        have = (lambda: self.i in self.got) if self.ordered else (lambda: len(self.order) > self.i)
        self.k.advance_until(have, timeout)
        if not have():
            raise MpTimeout
        j = self.i if self.ordered else self.order[self.i]
        self.i += 1
        success, payload = self.got[j]
        if success:
            return payload[0]
        raise payload

    __next__ = next


class MaybeEncodingError(Exception):
    pass


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.k = K
        if processes is None:
            processes = K.ncpu
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if maxtasksperchild is not None and maxtasksperchild < 1:
            raise ValueError("maxtasksperchild must be a positive int or None")
        self._processes = processes
        self.maxtasks = maxtasksperchild
        self.initializer = (
            dill.dumps((initializer, tuple(initargs))) if initializer else None
        )
        self.closed = False
        self.terminated = False
        self.tasks = []  # (result, i, payload)
        self._pool = []
        self.n_spawned = 0
        fail = K.knobs.get("spawn_fail_at")
        for _ in range(processes):
            if fail is not None and self.n_spawned == fail:
                K.run.fault("worker spawn fails")
                raise OSError(11, "Resource temporarily unavailable")
            self._add_worker()
        K.pools.append(self)

    # ---- workers
    def _add_worker(self):
        w = self.k.spawn_worker(f"w{self.n_spawned}")
        self.n_spawned += 1
        w.ntasks = 0
        w.busy = True  # starting
        self._pool.append(w)
        boot_fail = self.k.knobs.get("boot_fail", {})
        code = boot_fail.get(str(self.n_spawned - 1))
        dt = self.k.delay(0.05, self.k.knobs.get("boot", 3.0))
        if code is not None:
            def die():
                if w.exitcode is None and not self.terminated:
                    self.k.run.fault("worker dies while starting")
                    self._worker_died(w, code)
            self.k.after(dt, die)
        else:
            self.k.after(dt, lambda: self._boot(w))

    def _boot(self, w):
        if self.terminated or w.exitcode is not None:
            return
        w.clock = self.k.now
        if self.initializer:
            back = self.k.enter(w)
            try:
                f, a = dill.loads(self.initializer)
                f(*a)
            except Exception:
                back()
                return self._worker_died(w, 1)
            except SimCrash as c:
                back()
                return self._worker_died(w, c.code)
            back()
        w.busy = False
        self._pull(w)

    def _worker_died(self, w, code):
        w.exitcode = code
        if not (self.maxtasks and w.ntasks >= self.maxtasks):
            self.k.run.deaths.append(code)
        self.k.run.log(f"t={self.k.now:.3f} {w.name} exits {code}")

        def repopulate():
            if self.terminated or w not in self._pool:
                return
            self._pool.remove(w)
            if not self.closed or self.tasks:
                if self.n_spawned < 200:
                    self._add_worker()
        # the pool's maintenance thread looks every 0.1 s
        self.k.after(self.k.delay(0.01, 0.1), repopulate)

    def _kick(self):
        if self.terminated:
            return
        idle = [w for w in self._pool if w.exitcode is None and not w.busy]
        # which of the blocked workers gets the task is the OS's decision
        while idle and self.tasks:
            i = int(self.k.delay(0, len(idle) - 1e-9))
            w = idle.pop(i)
            self._pull(w)

    def _pull(self, w):
        if self.terminated or w.exitcode is not None or w.busy:
            return
        if not self.tasks:
            return
        task = self.tasks.pop(0)
        w.busy = True
        self.k.after(self.k.delay(0.0001, 0.01), lambda: self._run(w, task))

    def _run(self, w, task):
        if self.terminated or w.exitcode is not None:
            return
        res, i, payload, star = task
        k = self.k
        w.clock = k.now
        back = k.enter(w)
        outcome = None
        try:
            func, items = dill.loads(payload)
            outs = []
            try:
                for it in items:
                    if star == "star":
                        outs.append(func(*it))
                    elif star == "apply":
                        outs.append(func(*it[0], **it[1]))
                    else:
                        outs.append(func(it))
                outcome = (True, outs)
            except Exception as e:
                outcome = (False, e)
            try:
                msg = dill.dumps(outcome)
            except Exception as e:
                msg = dill.dumps((False, MaybeEncodingError(f"{e!r}: {str(outcome)[:200]}")))
        except SimCrash as c:
            outcome, msg = None, c.code
        except SystemExit as e:
            code = e.code
            code = 0 if code is None else code if isinstance(code, int) else 1
            outcome, msg = None, code & 0xFF
        except KeyboardInterrupt:
            outcome, msg = None, 1
        except (Hang, core.SimUnsupported):
            back()
            raise
        except BaseException as e:
            outcome, msg = None, 1
        finally:
            if k.current is w:
                back()
        w.ntasks += 1
        if outcome is None:
            k.run.fault(f"worker process ends mid-task")
            k.at(w.clock, lambda: self._worker_died(w, msg))
            return

        lag = k.delay(0.0, 0.02)

        def finished():
            if w.exitcode is not None or self.terminated:
                return
            post = k.knobs.get("die_after_result", {}).get(w.name)
            if post is not None and not getattr(w, "posted", False):
                w.posted = True
                k.run.fault("worker dies after sending a result")
                self._worker_died(w, post)
            elif self.maxtasks and w.ntasks >= self.maxtasks:
                self._worker_died(w, 0)
            else:
                w.busy = False
                self._pull(w)

        def deliver():
            if not self.terminated:
                success, value = dill.loads(msg)
                res._set(i, success, value)

        k.at(w.clock + lag, deliver)
        k.at(w.clock, finished)

    # ---- API
    def _check_open(self):
        if self.closed or self.terminated:
            raise ValueError("Pool not running")

    def _submit(self, res, i, func, items, star):
        payload = dill.dumps((func, items))
        self.tasks.append((res, i, payload, star))
        self.k.after(0.0, self._kick)

    def _map(self, func, iterable, chunksize, star, callback=None, error_callback=None):
        self._check_open()
        if not hasattr(iterable, "__len__"):
            iterable = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(iterable), len(self._pool) * 4)
            if extra:
                chunksize += 1
        if len(iterable) == 0:
            chunksize = 0
        iterable = list(iterable)
        chunks = [iterable[j : j + chunksize] for j in range(0, len(iterable), chunksize)] if chunksize else []
        res = SimAsyncResult(self, len(chunks), False, callback, error_callback)
        for i, ch in enumerate(chunks):
            self._submit(res, i, func, ch, star)
        return res

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, "star", callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, "one", callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check_open()
        res = SimAsyncResult(self, 1, True, callback, error_callback)
        self._submit(res, 0, func, [(tuple(args), dict(kwds))], "apply")
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _imap(self, func, iterable, ordered):
        self._check_open()
        items = list(iterable)
        it = SimIter(self, len(items), ordered)
        for i, x in enumerate(items):
            self._submit(it, i, func, [x], "one")
        return it

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, False)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = self.terminated = True
        for w in self._pool:
            if w.exitcode is None:
                w.exitcode = -15

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        if self.terminated:
            return
        self.k.advance_until(
            lambda: not self.tasks and not any(w.busy and w.exitcode is None for w in self._pool), None
        )

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimMpContext:
    def __init__(self, method="spawn"):
        self.method = method
        self.TimeoutError = __import__("multiprocess").TimeoutError

    def Pool(self, *a, **kw):
        return SimPool(*a, **kw)

    def cpu_count(self):
        return K.ncpu

    def get_context(self, method=None):
        return self

    def get_start_method(self, allow_none=False):
        return self.method

    def __getattr__(self, name):
        raise core.SimUnsupported(f"multiprocess context .{name}")


def install():
    """Point the seams at the simulator.  With no kernel running they pass through."""
    import multiprocess
    import multiprocess.pool
    import multiprocessing
    import multiprocessing.pool

    if _real:
        return
    for name, f in (
        ("signal", _sim_signal),
        ("getsignal", _sim_getsignal),
        ("alarm", _sim_alarm),
        ("setitimer", _sim_setitimer),
        ("getitimer", _sim_getitimer),
    ):
        _real["signal." + name] = getattr(_signal, name)
        setattr(_signal, name, f)
    _real["time.sleep"] = _time.sleep
    _time.sleep = _sim_sleep
    for name in ("time", "monotonic", "perf_counter"):
        _real["time." + name] = getattr(_time, name)
        setattr(_time, name, _sim_time(name, 1.0e6))
    _real["os.cpu_count"] = os.cpu_count

    def cpu_count():
        return K.ncpu if K is not None else _real["os.cpu_count"]()

    os.cpu_count = cpu_count
    real_getpid = os.getpid

    def getpid():
        if K is None or not os.path.realpath(sys._getframe(1).f_code.co_filename).startswith(core.REPO):
            return real_getpid()
        return K.current.pid

    os.getpid = getpid

    def os_exit(code):
        if K is None:
            _real["os._exit"](code)
        raise SimCrash(code & 0xFF)

    _real["os._exit"] = os._exit
    os._exit = os_exit
    for mp in (multiprocess, multiprocessing):
        real_pool, real_ctx = mp.Pool, mp.get_context

        def Pool(*a, _r=real_pool, **kw):
            return SimPool(*a, **kw) if K is not None else _r(*a, **kw)

        def get_context(method=None, _r=real_ctx):
            return SimMpContext(method or "spawn") if K is not None else _r(method)

        mp.Pool = Pool
        mp.pool.Pool = SimPool
        mp.get_context = get_context
        mp.cpu_count = cpu_count


class use:
    """with use(kernel): ...  the seams are live."""

    def __init__(self, kernel):
        self.kernel = kernel

    def __enter__(self):
        global K
        self.saved = self.kernel._save()
        self.env = dict(os.environ)
        self.outer = K
        K = self.kernel
        return self.kernel

    def __exit__(self, *a):
        global K
        K = self.outer
        self.kernel._restore(self.saved)
        for key in list(os.environ):
            if key not in self.env:
                del os.environ[key]
        for key, v in self.env.items():
            if os.environ.get(key) != v:
                os.environ[key] = v


class FireAt:
    """Delivers the pending alarm at the n-th traced bytecode of the target code.

    The instant at which a deadline expires is a choice of the simulator: this
    one moves the virtual clock to the deadline exactly there.
    """

    def __init__(self, kernel, proc_name, n, files=("torch_mlir_e2e_test/framework.py",)):
        self.k, self.proc_name, self.n = kernel, proc_name, n
        self.count = 0
        self.fired_at = None
        self.files = files
        self.total = 0

    def _want(self, code):
        return code.co_filename.startswith(core.REPO) and any(
            code.co_filename.endswith(f) for f in self.files
        )

    def global_trace(self, frame, event, arg):
        if not self._want(frame.f_code):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local_trace

    def local_trace(self, frame, event, arg):
        if event not in ("opcode", "return"):
            return self.local_trace
        p = self.k.current
        if p.alarm_at is None:
            return self.local_trace
        # a handler may run between any two bytecodes while the alarm is pending
        self.count += 1
        if self.count == self.n and self.fired_at is None:
            self.fired_at = (frame.f_code.co_name, frame.f_lineno)
            p.clock = max(p.clock, p.alarm_at)
            sys.settrace(None)
            self.k.deliver_alarm(p, f"at {frame.f_code.co_name}")
        return self.local_trace

    def __enter__(self):
        sys.settrace(self.global_trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
