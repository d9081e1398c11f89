"""The seams: clocks, threads, locks, processes, queues, event loops, randomness.

`install()` has to run before Rocketry is imported.  Outside a simulated run
(`Kernel.current_kernel is None`) everything behaves as usual.
"""
import asyncio
import logging
import multiprocessing
import multiprocessing.process
import os
import pickle
import queue as _queue
import subprocess
import sys
import threading
import time
import warnings
import _thread
from queue import Empty

from .kernel import BLOCK, DONE, Kernel, SimKilled, install_line_events

_real = {
    "time": time.time, "monotonic": time.monotonic, "sleep": time.sleep,
    "perf_counter": time.perf_counter, "time_ns": time.time_ns,
    "urandom": os.urandom, "getLogger": logging.getLogger,
    "Thread": threading.Thread, "Lock": threading.Lock,
    "Process": multiprocessing.Process, "Queue": multiprocessing.Queue,
    "current_process": multiprocessing.current_process,
    "execl": os.execl, "Popen": subprocess.Popen, "getpid": os.getpid,
}


def _k():
    return Kernel.current_kernel


# -- clocks -----------------------------------------------------------------
def sim_time():
    k = _k()
    return k.wall() if k is not None else _real["time"]()


def sim_time_ns():
    k = _k()
    return int(k.wall() * 1e9) if k is not None else _real["time_ns"]()


def sim_monotonic():
    k = _k()
    return k.mono() if k is not None else _real["monotonic"]()


def sim_perf_counter():
    k = _k()
    return k.mono() if k is not None else _real["perf_counter"]()


def sim_sleep(s):
    k = _k()
    if k is None or k.current is None:
        return _real["sleep"](s)
    k.sleep(s)


def sim_urandom(n):
    k = _k()
    return k.rng.randbytes(n) if k is not None else _real["urandom"](n)


# -- locks ------------------------------------------------------------------
class SimLock:
    """threading.Lock: blocks in the kernel and never in the operating system."""

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = _k()
        if k is None or k.current is None:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError("simulated lock is held outside a run")
            self._locked = True
            return True
        if k.current.killed:
            # the owner's process is dead: nothing may wait any more
            if self._locked:
                raise SimKilled()
            self._locked = True
            return True
        k.point()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else k.us + int(timeout * 1e6)
        me = k.current
        while self._locked:
            if deadline is not None and k.us >= deadline:
                return False
            self._waiters.append(me)
            try:
                k.block(deadline)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        k = _k()
        if k is not None:
            for t in self._waiters:
                k.wake(t)
        self._waiters = []

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class _NoLock:
    """For the lock of the logging module: nothing inside its regions can switch threads."""

    def acquire(self, *a, **kw):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _at_fork_reinit(self):
        pass


# -- threads ----------------------------------------------------------------
class SimThread(_real["Thread"]):

    _st = None

    def start(self):
        k = _k()
        if k is None or k.current is None:
            return super().start()
        if self._st is not None:
            raise RuntimeError("threads can only be started once")
        if getattr(k, "start_fault", None) and k.start_fault(self):
            raise RuntimeError("can't start new thread")
        self._started.set()
        self._st = k.spawn(self._sim_main, self.name, k.current.proc, py=self)
        k.point()

    def _sim_main(self):
        ident = _thread.get_ident()
        self._ident = ident
        threading._active[ident] = self
        try:
            self.run()
        finally:
            threading._active.pop(ident, None)

    def is_alive(self):
        if self._st is None:
            return super().is_alive()
        return self._st.state != DONE

    def join(self, timeout=None):
        if self._st is None:
            return super().join(timeout)
        k = _k()
        deadline = None if timeout is None else k.us + int(timeout * 1e6)
        k.point()
        while self._st.state != DONE:
            if deadline is not None and k.us >= deadline:
                return
            self._st.joiners.append(k.current)
            k.block(deadline)


# -- processes --------------------------------------------------------------
def _lookup_queue(qid):
    return _k().queues[qid]


def _stub_process(name):
    return None


def fork_copy(obj, memo):
    """What a forked child sees: its own copy of the task, the session and the arguments."""
    import dataclasses
    import functools
    import types
    from rocketry.core.task import Task
    from rocketry.core.parameters import Parameters
    from rocketry.session import Session

    if id(obj) in memo:
        return memo[id(obj)][0]

    def keep(new):
        memo[id(obj)] = (new, obj)
        return new

    if isinstance(obj, Task):
        cls = type(obj)
        new = keep(cls.__new__(cls))
        object.__setattr__(new, "__dict__", dict(obj.__dict__))
        object.__setattr__(new, "__fields_set__", set(obj.__fields_set__))
        for name in obj.__private_attributes__:
            if hasattr(obj, name):
                val = getattr(obj, name)
                if isinstance(val, (list, dict, set)):
                    val = val.copy()
                object.__setattr__(new, name, val)
        d = new.__dict__
        for key, val in list(d.items()):
            if isinstance(val, (Session, Parameters)):
                d[key] = fork_copy(val, memo)
            elif isinstance(val, (list, dict, set)):
                d[key] = val.copy()
        return new
    if isinstance(obj, Session):
        new = keep(obj.__class__.__new__(obj.__class__))
        new.__dict__.update(obj.__dict__)
        for key, val in list(new.__dict__.items()):
            if isinstance(val, Parameters):
                new.__dict__[key] = fork_copy(val, memo)
            elif isinstance(val, (list, dict, set)):
                new.__dict__[key] = val.copy()
        if hasattr(obj.config, "copy"):
            new.config = obj.config.copy()
        return new
    if isinstance(obj, Parameters):
        new = keep(obj.__class__.__new__(obj.__class__))
        new.__dict__.update(obj.__dict__)
        for key, val in list(new.__dict__.items()):
            if isinstance(val, dict):
                new.__dict__[key] = {a: fork_copy(b, memo) for a, b in val.items()}
        return new
    if isinstance(obj, types.MethodType):
        return keep(types.MethodType(obj.__func__, fork_copy(obj.__self__, memo)))
    if isinstance(obj, functools.partial):
        return keep(functools.partial(fork_copy(obj.func, memo), *fork_copy(obj.args, memo),
                                      **fork_copy(obj.keywords, memo)))
    if isinstance(obj, tuple) and type(obj) is tuple:
        return keep(tuple(fork_copy(x, memo) for x in obj))
    if type(obj) is list:
        new = keep([])
        new.extend(fork_copy(x, memo) for x in obj)
        return new
    if type(obj) is dict:
        new = keep({})
        new.update((a, fork_copy(b, memo)) for a, b in obj.items())
        return new
    if dataclasses.is_dataclass(obj) and not isinstance(obj, type):
        import copy
        return keep(copy.copy(obj))
    return obj


class SimProcess:
    """multiprocessing.Process; the plan chooses between "fork" and "spawn" (pickling)."""

    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        k = _k()
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        self.daemon = bool(daemon)
        self._p = None
        self.name = name or "Process-%d" % (k.uid() if k else 0)
        self.exitcode_ = None

    def __reduce__(self):
        return _stub_process, (self.name,)

    @property
    def pid(self):
        return self._p.pid if self._p else None

    ident = pid

    @property
    def exitcode(self):
        return self._p.exitcode if self._p and self._p.exited else None

    def start(self):
        k = _k()
        assert self._p is None, "cannot start a process twice"
        k.point()
        if getattr(k, "start_fault", None) and k.start_fault(self):
            raise BlockingIOError(11, "Resource temporarily unavailable")
        if getattr(k, "start_method", "fork") == "spawn":
            data = pickle.dumps((self._target, self._args, self._kwargs))
            payload = lambda: pickle.loads(data)        # noqa: E731
        else:
            copied = fork_copy((self._target, self._args, self._kwargs), {})
            payload = lambda: copied                    # noqa: E731
        p = k.new_proc(self.name, k.current.proc)
        self._p = p
        p.mp = self
        root = logging.RootLogger(logging.WARNING)
        p.logmgr = logging.Manager(root)
        root.manager = p.logmgr
        p.queue_buf = {}
        p.exec_name = self.name
        p.fault = k.proc_fault(self) if getattr(k, "proc_fault", None) else None
        delay = p.fault.get("delay", 0) if p.fault else 0
        delay_us = int(delay * 1e6) or k.rng.randrange(200, 30000)
        k.event("proc_start", proc=self.name, **(k.proc_tag() if hasattr(k, "proc_tag") else {}))
        thread = SimThread(target=self._child, args=(payload, p), name="MainThread")
        thread._started.set()
        thread._st = k.spawn(thread._sim_main, "MainThread", p, py=thread, delay=delay_us)
        k.point()

    def _child(self, payload, p):
        k = _k()
        if p.fault and p.fault.get("die_at_start"):
            k.fault("process_died_at_start")
            k.event("proc_crash", proc=p.name)
            k.kill(p)
        target, args, kwargs = payload()
        try:
            target(*args, **kwargs)
        except SystemExit as exc:
            p.exitcode = exc.code if isinstance(exc.code, int) else 1
        except Exception as exc:
            p.exitcode = 1
            k.event("child_error", proc=p.name, err=type(exc).__name__ + ": " + str(exc)[:200])
        # a normal exit joins the feeder threads of the queues
        for q, buf in list(p.queue_buf.items()):
            while buf:
                k.block(k.us + k.rng.randrange(20, 400))
                q._deliver_next(buf)

    def is_alive(self):
        k = _k()
        if self._p is not None and k is not None:
            assert self._p.parent is k.current.proc, 'can only test a child process'
        return self._p is not None and not self._p.exited

    def terminate(self):
        k = _k()
        k.point()
        if not self._p.exited:
            k.event("proc_terminate", proc=self.name)
            k.kill(self._p)
            k.point()

    kill = terminate

    def join(self, timeout=None):
        k = _k()
        deadline = None if timeout is None else k.us + int(timeout * 1e6)
        assert self._p.parent is k.current.proc, 'can only join a child process'
        k.point()
        while not self._p.exited:
            if deadline is not None and k.us >= deadline:
                return
            self._p.waiters.append(k.current)
            k.block(deadline)

    def close(self):
        pass


class _MainProcess:
    name = "MainProcess"
    pid = 4242
    daemon = False
    _config = {}
    authkey = b""
    _parent_pid = None


_MAIN = _MainProcess()


def sim_current_process():
    k = _k()
    if k is None or k.current is None:
        return _real["current_process"]()
    return k.current.proc.mp or _MAIN


class SimQueue:
    """multiprocessing.Queue: a pipe with one feeder per producing process.

    A record is visible to the reader some time after put(); what the feeder has
    not written when the process is killed is lost.
    """

    def __init__(self, maxsize=0, **kw):
        self._items = []
        self._readers = []
        self._id = None
        k = _k()
        if k is not None:
            if not hasattr(k, "queues"):
                k.queues = {}
            self._id = len(k.queues)
            k.queues[self._id] = self

    def __reduce__(self):
        return _lookup_queue, (self._id,)

    def put(self, obj, block=True, timeout=None):
        k = _k()
        k.point()
        data = pickle.dumps(obj)
        p = k.current.proc
        if p.mp is None:
            self._items.append(data)
            self._wake()
            return
        buf = p.queue_buf.setdefault(self, [])
        buf.append(data)
        if k.rng.random() < 0.5:
            # the feeder thread is fast: the data is in the pipe before put returns
            self._deliver_next(buf)
        else:
            at = k.rng.choice((50, 300, 2000, 20000, 200000))
            st = k.spawn(lambda: self._feed(buf), "QueueFeederThread", _feeder_proc(k, p))
            st.state = BLOCK
            st.deadline = k.us + at
        k.point()

    put_nowait = put

    def _feed(self, buf):
        self._deliver_next(buf)

    def _deliver_next(self, buf):
        if buf:
            self._items.append(buf.pop(0))
            self._wake()

    def _wake(self):
        k = _k()
        for t in self._readers:
            k.wake(t)
        self._readers = []

    def get(self, block=True, timeout=None):
        k = _k()
        if k is None or k.current is None:
            raise Empty
        k.point()
        if not self._items and block:
            deadline = None if timeout is None else k.us + int(timeout * 1e6)
            while not self._items:
                if deadline is not None and k.us >= deadline:
                    raise Empty
                self._readers.append(k.current)
                k.block(deadline)
        if not self._items:
            raise Empty
        return pickle.loads(self._items.pop(0))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._items

    def qsize(self):
        return len(self._items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


def _feeder_proc(k, p):
    # feeder threads die with their process, but do not keep it alive
    f = getattr(p, "feeder", None)
    if f is None:
        f = k.new_proc(p.name + "-feeder", p)
        f.external = True
        f.mp = p.mp
        p.feeder = f
    return f


# -- logging ----------------------------------------------------------------
def sim_getLogger(name=None):
    k = _k()
    if k is not None and k.current is not None:
        mgr = k.current.proc.logmgr
        if mgr is not None:
            if not name:
                return mgr.root
            return mgr.getLogger(name)
    return _real["getLogger"](name)


# -- event loop -------------------------------------------------------------
class _SimSelector:

    def __init__(self):
        self.waiting = None
        self.signalled = False

    def select(self, timeout=None):
        k = _k()
        if k is None or k.current is None:
            return []
        if self.signalled:
            self.signalled = False
            k.point()
            return []
        if timeout is not None and timeout <= 0:
            k.tick()
            k.point()
            return []
        deadline = None if timeout is None else k.us + max(1, int(timeout * 1e6))
        self.waiting = k.current
        try:
            k.block(deadline)
        finally:
            self.waiting = None
        self.signalled = False
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class SimLoop(asyncio.base_events.BaseEventLoop):

    def __init__(self):
        super().__init__()
        self._selector = _SimSelector()

    def time(self):
        k = _k()
        return k.mono() if k is not None else _real["monotonic"]()

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        sel = self._selector
        k = _k()
        if k is None:
            return
        sel.signalled = True
        if sel.waiting is not None:
            k.wake(sel.waiting)

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def work():
            try:
                res = func(*args)
            except Exception as exc:
                err = exc
                self.call_soon_threadsafe(lambda: fut.done() or fut.set_exception(err))
            else:
                self.call_soon_threadsafe(lambda: fut.done() or fut.set_result(res))
        SimThread(target=work, name="executor").start()
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return

    def call_exception_handler(self, context):
        k = _k()
        if k is None or k.current is None or k.current.killed:
            return
        exc = context.get("exception")
        k.event("loop_exception", msg=str(context.get("message"))[:80],
                err=(type(exc).__name__ + ": " + str(exc)[:200]) if exc else None)


class SimPolicy(asyncio.DefaultEventLoopPolicy):

    def new_event_loop(self):
        if _k() is None:
            return super().new_event_loop()
        return SimLoop()


# -- external commands ------------------------------------------------------
class SimPopen:
    """subprocess.Popen of a simulated command, answered by the world's `command` table."""

    def __new__(cls, *args, **kw):
        k = _k()
        if k is None or k.current is None:
            return _real["Popen"](*args, **kw)
        return super().__new__(cls)

    def __init__(self, args, **kw):
        k = _k()
        k.point()
        self.args = list(args) if isinstance(args, (list, tuple)) else args
        self.returncode = None
        self.kw = kw
        spec = k.command(self.args, kw)      # may raise, as a missing executable does
        self.pid = 7000 + k.uid()
        self._end = k.us + int(spec.get("dur", 0) * 1e6)
        self._spec = spec
        self._killed = False
        self._start_us = k.us
        k.event("cmd_start", pid=self.pid, args=self.args, shell=bool(kw.get("shell")), cwd=kw.get("cwd"), n=spec.get("n"),
                **k.proc_tag())

    def _finish(self):
        if self.returncode is None:
            self.returncode = -9 if self._killed else self._spec.get("rc", 0)
            _k().event("cmd_exit", pid=self.pid, rc=self.returncode, killed=self._killed)

    def poll(self):
        k = _k()
        if self._killed or k.us >= self._end:
            self._finish()
        return self.returncode

    def _wait(self, timeout):
        k = _k()
        if isinstance(timeout, (int, float)) or timeout is None:
            pass
        else:
            # the real one computes  monotonic() + timeout
            k.mono() + timeout
        deadline = None if timeout is None else k.us + int(timeout * 1e6)
        while not self._killed and k.us < self._end:
            if deadline is not None and k.us >= deadline:
                raise subprocess.TimeoutExpired(self.args, timeout)
            until = self._end if deadline is None else min(self._end, deadline)
            k.block(until)
        self._finish()

    def communicate(self, input=None, timeout=None):
        self._wait(timeout)
        return self._spec.get("out", "").encode(), self._spec.get("err", "").encode()

    def wait(self, timeout=None):
        self._wait(timeout)
        return self.returncode

    def kill(self):
        self._killed = True

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._wait(None)


def sim_execl(path, *args):
    k = _k()
    if k is None or k.current is None:
        return _real["execl"](path, *args)
    k.on_exec(args)


# -- installation -----------------------------------------------------------
_done = False


def install(repo="/repo"):
    global _done
    if _done:
        return
    _done = True
    assert "rocketry" not in sys.modules
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.monotonic = sim_monotonic
    time.perf_counter = sim_perf_counter
    time.sleep = sim_sleep
    threading._time = sim_monotonic
    _queue.time = sim_monotonic
    os.urandom = sim_urandom

    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None            # RLock() falls back to the Python one, on SimLock
    threading.Thread = SimThread
    logging._lock = _NoLock()
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None:
            h.createLock()

    multiprocessing.Process = SimProcess
    multiprocessing.Queue = SimQueue
    multiprocessing.current_process = sim_current_process
    multiprocessing.process.current_process = sim_current_process

    logging.getLogger = sim_getLogger
    logging.lastResort = None
    logging.captureWarnings(False)
    warnings.simplefilter("ignore")
    subprocess.Popen = SimPopen
    os.execl = sim_execl
    asyncio.set_event_loop_policy(SimPolicy())
    if repo not in sys.path:
        sys.path.insert(0, repo)
    # the version file is generated by the build and ignored by git
    if not os.path.exists(os.path.join(repo, "rocketry", "_version.py")):
        import types
        m = types.ModuleType("rocketry._version")
        m.version = m.__version__ = "0.0.0"
        m.version_tuple = m.__version_tuple__ = (0, 0, 0)
        sys.modules["rocketry._version"] = m
    import pkgutil
    import importlib
    import rocketry
    for mod in pkgutil.walk_packages(rocketry.__path__, "rocketry."):
        if ".test" not in mod.name:
            importlib.import_module(mod.name)
    install_line_events([os.path.join(repo, "rocketry") + os.sep])
