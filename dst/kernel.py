"""The simulation kernel.

Every "thread" and every "process" of the simulated deployment is a real OS
thread of this one Python process, but only the thread which holds the baton
runs.  At every synchronisation point and, probabilistically, at every source
line of Rocketry, the kernel decides -- from one seeded pseudo random stream or
from a recorded list of decisions -- who continues.  Time is virtual: it only
moves when a clock is read (a few microseconds) or when nobody can run (it then
jumps to the next timer).
"""
import contextvars
import random
import sys
import threading
import time as _time
import zlib
import _thread

REAL_MONO = _time.monotonic
REAL_SLEEP = _time.sleep

RUN, BLOCK, DONE = 0, 1, 2


class SimKilled(BaseException):
    """Raised inside a simulated thread whose simulated process was killed."""


class Decisions:
    """Source of the scheduling decisions: seeded PRNG or a recorded list."""

    def __init__(self, seed=None, mean_lines=0, stick=0.5, replay=None):
        self.rng = random.Random(seed)
        self.mean = mean_lines
        self.stick = stick
        self.replay = replay
        self.picks = []      # choices made at the points with more than one option
        self.gaps = []       # number of source lines between preemptions
        self._ip = 0
        self._ig = 0

    def pick(self, n, sticky):
        if self.replay is not None:
            picks = self.replay["picks"]
            v = picks[self._ip] if self._ip < len(picks) else 0
            self._ip += 1
            if v >= n:
                v = 0
        else:
            if sticky and self.rng.random() < self.stick:
                v = 0
            else:
                v = self.rng.randrange(n)
        self.picks.append(v)
        return v

    def gap(self):
        if self.replay is not None:
            gaps = self.replay["gaps"]
            v = gaps[self._ig] if self._ig < len(gaps) else 0
            self._ig += 1
        elif not self.mean:
            v = 0
        else:
            v = 1 + int(self.rng.expovariate(1.0 / self.mean))
        self.gaps.append(v)
        return v if v > 0 else 1 << 60


class Proc:
    """A simulated operating system process."""

    def __init__(self, pid, name, parent=None):
        self.pid = pid
        self.name = name
        self.parent = parent
        self.children = []
        self.threads = []
        self.killed = False
        self.exited = False
        self.exitcode = None
        self.frozen_until = 0
        self.logmgr = None
        self.mp = None          # the SimProcess object of the parent
        self.waiters = []
        self.external = False
        if parent is not None:
            parent.children.append(self)

    @property
    def dead(self):
        return self.killed or self.exited


class SThread:
    __slots__ = ("tid", "name", "proc", "sem", "state", "deadline", "killed",
                 "woken", "py", "joiners", "fn", "ctx", "error", "tag",
                 "last_line")

    def __init__(self, tid, name, proc, fn):
        self.tid = tid
        self.name = name
        self.proc = proc
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = RUN
        self.deadline = None
        self.killed = False
        self.woken = False
        self.py = None
        self.joiners = []
        self.ctx = None
        self.error = None
        self.tag = None
        self.last_line = {}


class Kernel:
    """One simulated run."""

    current_kernel = None

    def __init__(self, seed=0, t0=1_600_000_000.0, decisions=None, lat_max=20,
                 max_switches=400_000, max_lines=8_000_000, max_real=120.0,
                 max_sim=None, coarse=0):
        self.rng = random.Random("data-%s" % seed)      # urandom, start-up latencies ...
        self.dec = decisions or Decisions(seed="sched-%s" % seed)
        self.us = 0                              # virtual monotonic clock, microseconds
        self.offset = int(round(t0 * 1e6))       # wall = us + offset
        self.coarse = int(coarse)                # resolution of the wall clock in us (0: exact)
        self._lcg = zlib.crc32(repr(seed).encode()) | 1
        self.lat_max = lat_max
        self.threads = []
        self.live = []
        self.procs = []
        self.current = None
        self.started = False
        self.finished = False
        self.abort = None
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.switches = 0
        self.lines = 0
        self.preempts = 0
        self.max_switches = max_switches
        self.max_lines = max_lines
        self.max_sim_us = None if max_sim is None else int(max_sim * 1e6)
        self.max_real = max_real
        self.t_real0 = REAL_MONO()
        self.events = []
        self.crc = 0
        self.icrc = 0
        self.faults = {}
        self._gap = 0
        self._uid = 0
        self.thread_hook = None     # (kind, thread): beginning and end of the threads
        self.atomic = 0             # > 0: the running thread is not interrupted, time stands still
        self.line_budget = None
        self.traps = []         # [thread, source lines, thread which continues then]     # (proc, remaining lines, callback): crash points

    # -- clock ---------------------------------------------------------------
    def tick(self):
        if self.atomic:
            return
        self._lcg = (self._lcg * 1103515245 + 12345) & 0x7FFFFFFF
        self.us += 1 + (self._lcg >> 8) % self.lat_max

    def wall(self):
        self.tick()
        w = self.us + self.offset
        if self.coarse:
            w -= w % self.coarse
        return w / 1e6

    def mono(self):
        self.tick()
        return self.us / 1e6

    def peek_wall(self):
        return (self.us + self.offset) / 1e6

    # -- history ---------------------------------------------------------------
    def event(self, kind, **kw):
        ev = {"t": self.us, "w": self.us + self.offset, "k": kind}
        ev.update(kw)
        self.events.append(ev)
        self.crc = zlib.crc32(repr(sorted(ev.items())).encode(), self.crc)
        return ev

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def uid(self):
        self._uid += 1
        return self._uid

    # -- processes and threads ---------------------------------------------
    def new_proc(self, name, parent=None):
        p = Proc(1000 + len(self.procs), name, parent)
        self.procs.append(p)
        return p

    def spawn(self, fn, name, proc, py=None, delay=0):
        t = SThread(len(self.threads), name, proc, fn)
        t.py = py
        t.ctx = contextvars.copy_context()
        self.threads.append(t)
        self.live.append(t)
        proc.threads.append(t)
        if delay:
            t.state = BLOCK
            t.deadline = self.us + int(delay)
        if proc.killed:
            t.killed = True
            t.state = RUN
        if self.thread_hook is not None:
            self.thread_hook("thread_start", t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        t.sem.acquire()
        ident = _thread.get_ident()
        threading._active.pop(ident, None)      # of an earlier thread: identifiers are used again
        try:
            if not t.killed:
                t.ctx.run(t.fn)
        except SimKilled:
            pass
        except BaseException as exc:      # noqa: the simulated thread died of it
            t.error = exc
            if not t.killed:
                self.event("thread_error", thread=t.name, proc=t.proc.name,
                           err=type(exc).__name__ + ": " + str(exc)[:200])
        threading._active.pop(ident, None)
        t.state = DONE
        if self.thread_hook is not None and not self.finished:
            self.thread_hook("thread_end", t)
        for j in t.joiners:
            self.wake(j)
        self.live.remove(t)
        p = t.proc
        if all(x.state == DONE for x in p.threads) and not p.exited and not p.external:
            self._proc_exit(p)
        t.fn = None
        t.ctx = None
        if self.finished:
            self.main_sem.release()
            return
        try:
            nxt = self._choose(None)
        except SimKilled:
            nxt = None
        if nxt is None:
            self._finish()
        else:
            self._hand(nxt)

    def _proc_exit(self, p):
        p.exited = True
        if p.exitcode is None:
            p.exitcode = -15 if p.killed else 0
        if p.mp is not None:
            self.event("proc_exit", proc=p.name)
        for w in p.waiters:
            self.wake(w)
        p.waiters = []

    def kill(self, proc):
        """Kill a simulated process (and, as nobody reads their logs any more, its children)."""
        if proc.dead:
            return
        proc.killed = True
        for t in proc.threads:
            if t.state != DONE:
                t.killed = True
                if t.state == BLOCK:
                    t.state = RUN
                    t.deadline = None
        for c in proc.children:
            self.kill(c)
        if all(t.state == DONE for t in proc.threads):
            self._proc_exit(proc)
        if self.current is not None and self.current.killed:
            raise SimKilled()

    # -- scheduling ----------------------------------------------------------
    def run(self, fn, name="driver"):
        assert Kernel.current_kernel is None
        Kernel.current_kernel = self
        root = self.new_proc("driver")
        root.external = True
        self.started = True
        self._gap = self.dec.gap()
        t = self.spawn(fn, name, root)
        self.driver = t
        self.current = t
        t.sem.release()
        self.main_sem.acquire()
        self._reap()
        Kernel.current_kernel = None
        self.current = None

    def stop(self, reason=None):
        """End the run (called by the driver, or when a limit is hit)."""
        if reason and not self.abort:
            self.abort = reason
        self.finished = True

    def _finish(self):
        self.finished = True
        self.main_sem.release()

    def _reap(self):
        # unwind every simulated thread which is left, one at a time
        self.finished = True
        for t in list(self.live):
            if t.state != DONE:
                t.killed = True
                self.current = t
                t.sem.release()
                self.main_sem.acquire()

    def _choose(self, cur, forced=False):
        """Who runs next; `cur` is the running thread if it can continue."""
        us = self.us
        if self.max_sim_us is not None and us > self.max_sim_us and not self.finished:
            self.stop("simtime")
        self.switches += 1
        if self.switches > self.max_switches:
            self.stop("switches")
        if not self.switches & 1023 and REAL_MONO() - self.t_real0 > self.max_real:
            self.stop("realtime")
        if self.finished:
            return None
        while True:
            opts = []
            nxt = None
            for t in self.live:
                st = t.state
                if st == DONE:
                    continue
                fz = t.proc.frozen_until
                if fz > us and not t.killed:
                    at = fz
                    if st == BLOCK:
                        if t.deadline is None:
                            continue
                        at = max(fz, t.deadline)
                    if nxt is None or at < nxt:
                        nxt = at
                    continue
                if st == RUN:
                    opts.append(t)
                elif t.deadline is not None:
                    if t.deadline <= us:
                        opts.append(t)
                    elif nxt is None or t.deadline < nxt:
                        nxt = t.deadline
            if opts:
                break
            if nxt is None:
                self.event("deadlock")
                self.stop("deadlock")
                return None
            self.us = us = nxt
        if len(opts) == 1:
            t = opts[0]
        else:
            sticky = False
            if cur is not None and cur in opts:
                opts.remove(cur)
                opts.insert(0, cur)
                sticky = not forced
            i = self.dec.pick(len(opts), sticky)
            t = opts[i]
            self.icrc = zlib.crc32(b"%d" % t.tid, self.icrc)
        return t

    def _hand(self, t):
        if t.state == BLOCK:
            t.woken = False
            t.state = RUN
            t.deadline = None
        self.current = t
        t.sem.release()

    def _switch(self, me, cur, forced=False):
        nxt = self._choose(cur, forced)
        if nxt is me:
            if me.state == BLOCK:
                me.woken = False
                me.state = RUN
                me.deadline = None
            return
        if nxt is None:
            # the run is over; the reaper wakes us up
            self.main_sem.release()
            me.sem.acquire()
            me.killed = True
            raise SimKilled()
        self._hand(nxt)
        me.sem.acquire()
        if me.killed:
            raise SimKilled()

    def in_sim(self):
        return self.started and self.current is not None

    def point(self):
        """A synchronisation point: somebody else may continue here."""
        if self.atomic:
            return
        me = self.current
        if me.killed:
            raise SimKilled()
        if len(self.live) > 1:
            self._switch(me, me)
        elif self.finished:
            self._switch(me, me)

    def block(self, deadline=None):
        """Block the current thread until woken (True) or the deadline (False)."""
        me = self.current
        if me.killed:
            raise SimKilled()
        me.state = BLOCK
        me.deadline = deadline
        me.woken = True
        self._switch(me, None)
        return me.woken

    def wake(self, t):
        if t.state == BLOCK:
            t.state = RUN
            t.deadline = None
            t.woken = True

    def sleep(self, seconds):
        us = int(seconds * 1e6)
        if us <= 0:
            self.tick()
            self.point()
        else:
            self.block(self.us + us)

    # -- line preemption -----------------------------------------------------
    def on_line(self):
        self.lines += 1
        if self.atomic:
            return
        me = self.current
        if me is None:
            return
        if me.killed:
            raise SimKilled()
        lb = self.line_budget
        if lb is not None and me.proc is lb[0]:
            lb[1] -= 1
            if lb[1] <= 0:
                self.line_budget = None
                lb[2]()
        if self.lines > self.max_lines:
            self.stop("lines")
            self._switch(me, me)
        if self.traps:
            for trap in self.traps:
                if me is trap[0]:
                    trap[1] -= 1
                    if trap[1] < 0:
                        self.traps.remove(trap)
                        t = trap[2]
                        if t.state == BLOCK and not t.killed and t.proc.frozen_until <= self.us:
                            self.preempts += 1
                            self.tick()
                            self.wake(t)
                            self._hand(t)
                            me.sem.acquire()
                            if me.killed:
                                raise SimKilled()
                        break
        self._gap -= 1
        if self._gap <= 0:
            self._gap = self.dec.gap()
            if len(self.live) > 1:
                self.preempts += 1
                self.tick()
                self._switch(me, me, True)


def K():
    return Kernel.current_kernel


# -- sys.monitoring ---------------------------------------------------------
_TOOL = 3
_prefixes = ()
_installed = False


def _line_cb(code, line):
    if not code.co_filename.startswith(_prefixes):
        return sys.monitoring.DISABLE
    k = Kernel.current_kernel
    if k is not None:
        # After a call which the interpreter has specialised (a property, __getitem__) the line of the caller may be
        # reported once more; whether it is depends on the history of the process, so repetitions do not count.
        me = k.current
        if me is not None:
            last = me.last_line
            if last.get(id(code)) == line:
                return
            last[id(code)] = line
        k.on_line()


def install_line_events(prefixes):
    global _prefixes, _installed
    _prefixes = tuple(prefixes)
    if _installed:
        return
    _installed = True
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "dst")
    mon.register_callback(_TOOL, mon.events.LINE, _line_cb)
    mon.set_events(_TOOL, mon.events.LINE)
