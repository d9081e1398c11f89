"""A simulated deployment: one Rocketry application, its operators and its faults.

A *plan* (plain JSON) says what the deployment looks like and what goes wrong
when; `run_plan` executes it in the kernel and returns the recorded history.
"""
import asyncio
import contextvars
import datetime
import gc
import itertools
import logging
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time
import warnings

from . import seams
from .kernel import Decisions, Kernel, SimKilled
from .syntax import to_syntax

seams.install(os.environ.get("DST_REPO", "/repo"))

import rocketry                                             # noqa: E402
from rocketry import Grouper, Rocketry, Session                      # noqa: E402
from rocketry.args import (Arg, EnvArg, FuncArg, Return, TerminationFlag,   # noqa: E402
                           Session as SessionArg, Task as TaskArg, SimpleArg)
from rocketry.conditions import api as capi                 # noqa: E402
from rocketry.core import BaseCondition, Task               # noqa: E402
from rocketry.parse import parse_condition                   # noqa: E402
from rocketry.exc import (SchedulerExit, SchedulerRestart, TaskInactionException,  # noqa: E402
                          TaskTerminationException)
from rocketry.log import (LogRecord, MinimalRecord, MinimalRunRecord, RunRecord,   # noqa: E402
                          TaskLogRecord, TaskRunRecord)
from redbird.logging import RepoHandler                     # noqa: E402
from redbird.repos import CSVFileRepo, MemoryRepo           # noqa: E402

from . import funcs                                         # noqa: E402

MODELS = {m.__name__: m for m in (LogRecord, MinimalRecord, MinimalRunRecord, RunRecord,
                                  TaskLogRecord, TaskRunRecord)}
CUR_RUN = contextvars.ContextVar("dst_run_id", default=None)

_ORIG_DEFAULT_SESSION = rocketry._base.RedBase.session if hasattr(rocketry, "_base") else None


def _task_hash(task):
    w = funcs.W
    return w.task_hash(task) if w is not None else id(task)


def _all_task_classes(cls=Task):
    yield cls
    for sub in cls.__subclasses__():
        yield from _all_task_classes(sub)


# The address of a task decides the order of a set of tasks: a seeded number instead.
for _cls in _all_task_classes():
    _cls.__hash__ = _task_hash


ARGV = ("scheduler_app.py", "--name", "of the app")     # how the program was started

class InjectedError(RuntimeError):
    """A failure of user code."""


class InjectedLogError(OSError):
    """The log store refused a write."""


# -- harness side conditions --------------------------------------------------
class HCond(BaseCondition):
    """A user-defined condition whose value the plan decides."""

    def __init__(self, key):
        self.key = key

    def observe(self, **kwargs):
        return funcs.W.cond(self.key)

    def get_state(self):
        return self.observe()

    def __str__(self):
        return "hcond(%r)" % self.key


class AtWall(BaseCondition):
    """True once the virtual monotonic clock has passed `us`."""

    def __init__(self, us):
        self.us = us

    def observe(self, **kwargs):
        k = Kernel.current_kernel
        k.tick()
        return k.us >= self.us

    def get_state(self):
        return self.observe()

    def __str__(self):
        return "at(%r)" % self.us


def _count(action, task=None, scope=None):
    """The condition that counts what happened to a task, to be compared with a number."""
    import rocketry.conditions as rc
    import rocketry.time as rt
    cls = {"run": rc.TaskStarted, "success": rc.TaskSucceeded, "fail": rc.TaskFailed, "terminate": rc.TaskTerminated,
           "inaction": rc.TaskInacted, "finish": rc.TaskFinished}[action]
    if scope is None:
        return cls(task=task)
    per = {"minute": rt.TimeOfMinute, "hour": rt.TimeOfHour, "day": rt.TimeOfDay, "week": rt.TimeOfWeek,
           "month": rt.TimeOfMonth}.get(scope)
    return cls(task=task, period=per() if per else rt.TimeDelta(scope))


def _scond(key):
    """A user's condition with a syntax of its own."""
    return funcs.W.cond(key)


def fcond(key, this_task=TaskArg(), session=SessionArg(), level=Arg("level")):
    """A user's condition made with @app.cond(): its arguments must be those of the task it is checked for."""
    w = funcs.W
    key, _, owner = key.partition(":")
    if this_task is None or this_task.name != owner or session is not w.session or level != "L5":
        w.k.event("fcond_wrong", owner=owner, got=getattr(this_task, "name", None), session=session is w.session,
                  level=str(level))
    return w.cond(key)


def cond_namespace():
    ns = {n: getattr(capi, n) for n in dir(capi) if not n.startswith("_")}
    import rocketry.conditions as rc
    import rocketry.time as rt
    for mod in (rc, rt):
        for n in dir(mod):
            if n[0].isupper():
                ns.setdefault(n, getattr(mod, n))
    ns["hcond"] = HCond
    ns["count"] = _count
    ns["at"] = lambda s: AtWall(int(s * 1e6))
    ns["Any_"] = __import__("rocketry.core.condition", fromlist=["Any"]).Any
    return ns


# -- the durable log store ------------------------------------------------------
class SimMemoryRepo(MemoryRepo):

    def add(self, item, if_exists="raise"):
        return funcs.W.log_add(super().add, item)


class SimCSVRepo(CSVFileRepo):

    def add(self, item, if_exists="raise"):
        return funcs.W.log_add(super().add, item)


class _SchedLog(logging.Handler):
    """Errors the scheduler reports go to the history."""

    def emit(self, record):
        k = Kernel.current_kernel
        if k is None or k.current is None or k.current.killed:
            return
        err = None
        if record.exc_info and record.exc_info[0]:
            err = record.exc_info[0].__name__
        k.event("sched_log", level=record.levelname, msg=record.getMessage()[:120], err=err)


def harness_run_id(task, params=None):
    return funcs.W.new_run_id(task, params)


# -- hooks (module level: they travel to the child processes) ---------------------
def _where(k):
    """The thread of control something runs in."""
    p = k.current.proc
    return (p.name if p.mp is not None else "host"), k.current.name


def _hook_event(kind, n, task, **more):
    k = Kernel.current_kernel
    if k is None:           # the run is over: the interpreter unwinds an abandoned coroutine
        return
    proc, thread = _where(k)
    k.event(kind, h=n, task=task.name, rid=CUR_RUN.get(), proc=proc, thread=thread, **more)


def hook_execute(task=TaskArg()):
    w = funcs.W
    _hook_event("hook_pre", 0, task)
    w.maybe_hook_fail("execute_pre", task.name)
    exc = yield
    _hook_event("hook_post", 0, task, exc=None if not exc or exc[0] is None else exc[0].__name__)


def hook_execute2(task=TaskArg()):
    _hook_event("hook_pre", 1, task)
    exc = yield
    _hook_event("hook_post", 1, task, exc=None if not exc or exc[0] is None else exc[0].__name__)


def hook_plain(task=TaskArg()):
    _hook_event("hook_pre", 2, task)


EXECUTE_HOOKS = {"execute": hook_execute, "execute2": hook_execute2, "plain": hook_plain}


def hook_cycle(scheduler=None):
    w = funcs.W
    w.on_cycle("pre")
    yield
    w.on_cycle("post")


def hook_startup():
    k = Kernel.current_kernel
    funcs.W.startups += 1
    k.event("hook_startup", phase="pre")
    yield
    k.event("hook_startup", phase="post")
    if funcs.W.plan.get("states") or funcs.W.plan.get("observe"):
        since = len(k.events)
        k.event("state", since=since, state=funcs.W.task_state())


def hook_shutdown():
    k = Kernel.current_kernel
    if k is None:           # the run is over: the interpreter unwinds an abandoned coroutine
        yield
        return
    k.event("hook_shutdown", phase="pre")
    yield
    k.event("hook_shutdown", phase="post")


def param_func(key="p"):
    return funcs.W.param_value(key)


def param_ret(v=Return("t0", default="none")):
    """An argument made of another argument."""
    return v


def param_arg(v=Arg("a", default="none")):
    return v


def _jsonable(v):
    if isinstance(v, Task):
        return "<task %s>" % v.name
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [_jsonable(x) for x in v]
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, dict):
        return {str(k): _jsonable(x) for k, x in v.items()}
    return "<%s>" % type(v).__name__


funcs.__dict__.update(Arg=Arg, EnvArg=EnvArg, FuncArg=FuncArg, Return=Return, TerminationFlag=TerminationFlag,
                      SessionArg=SessionArg, TaskArg=TaskArg, SimpleArg=SimpleArg,
                      param_func=param_func, param_ret=param_ret, param_arg=param_arg)


class World:

    def __init__(self, plan, decisions=None):
        self.plan = plan
        self.k = Kernel(
            seed=plan["seed"], t0=plan.get("t0", 1_600_000_000.0), decisions=decisions,
            lat_max=plan.get("lat_max", 20), max_sim=plan.get("max_sim"),
            coarse=plan.get("coarse", 0),
            max_switches=plan.get("max_switches", 400_000),
            max_lines=plan.get("max_lines", 6_000_000),
            max_real=plan.get("max_real", 100.0))
        self.k.queues = {}
        self.k.start_method = plan.get("start_method", "fork")
        self.k.proc_fault = self.proc_fault
        self.k.start_fault = self.start_fault
        self.k.proc_tag = lambda: {"rid": CUR_RUN.get()}
        self.k.command = self.command
        self.k.on_exec = self.on_exec
        self.k.thread_hook = self.on_thread
        self.rng = random.Random("world-%s" % plan["seed"])
        self.hashes = {}
        self.hash_refs = []
        self.inv_count = {}
        self.boot_no = 0
        self.rep = 0
        self.startups = 0
        self.observed = 0
        self.returned = False
        self.host = None
        self.session = None
        self.app = None
        self.store = []                 # durable log (memory)
        self.scratch = None
        self.log_seq = 0
        self.run_seq = 0
        self.cycles = 0
        self.n_proc = {}
        self.n_starts = {}
        self.cond_reads = {}
        self.last_exit = None
        self.crash_flag = False
        self.exec_flag = False
        self.cycle_waiters = []
        self.monitors = []              # callables (world, phase), evaluated on every cycle
        self.cycle_events = plan.get("cycle_events", True)
        self.kinds = {f["kind"] for f in plan.get("faults", [])}
        self.final = {}
        self.task_funcs = {}
        self.ns = None
        self._nfunc = 0
        self.hook_fail_count = {}

    # -- identity --------------------------------------------------------------
    def task_hash(self, task):
        key = id(task)
        h = self.hashes.get(key)
        if h is None:
            h = self.rng.getrandbits(40)
            self.hashes[key] = h
            self.hash_refs.append(task)
        return h

    def on_thread(self, kind, t):
        if t.proc is self.host and t.ctx is not None:
            rid = t.ctx.get(CUR_RUN)
            if rid is not None:
                self.k.event(kind, rid=rid)

    def new_run_id(self, task, params):
        self.run_seq += 1
        rid = "r%d" % self.run_seq
        CUR_RUN.set(rid)
        more = {}
        if self.plan.get("show_x"):
            try:
                x = params["x"]
            except (KeyError, TypeError):
                x = None
            more["x"] = x if isinstance(x, str) else None
        self.k.event("start", task=task.name, rid=rid, exec=task.get_execution(),
                     boot=self.boot_no, **more)
        return rid

    # -- faults answered on demand -------------------------------------------------
    def faults(self, kind):
        return [f for f in self.plan.get("faults", []) if f["kind"] == kind]

    def proc_fault(self, proc):
        """What happens to the n-th process of a task."""
        name = getattr(getattr(proc._target, "__self__", None), "name", "?")
        n = self.n_proc.get(name, 0)
        self.n_proc[name] = n + 1
        for f in self.faults("proc"):
            if f["task"] == name and f["n"] == n:
                return f
        return None

    def start_fault(self, obj):
        """The n-th thread or process of a task cannot be made (fork or clone fails)."""
        if "start_error" not in self.kinds:
            return False
        name = getattr(getattr(obj._target, "__self__", None), "name", None)
        for f in self.faults("start_error"):
            if f["task"] == name:
                n = self.n_starts.get(name, 0)
                self.n_starts[name] = n + 1
                if n in f["n"]:
                    self.k.fault("fork_or_clone_failure")
                    self.k.event("start_error", task=name, rid=CUR_RUN.get())
                    return True
        return False

    def command(self, args, kw):
        text = args if isinstance(args, str) else " ".join(map(str, args))
        if text.startswith(sys.executable) and ARGV[0] in text or text == sys.executable:
            # the scheduler starts itself anew
            first = args if isinstance(args, str) else args[0] if kw.get("shell") else text
            self.k.event("relaunch", boot=self.boot_no, whole=all(a in first for a in ARGV))
            self.relaunched = True
            return {"rc": 0}
        for key, spec in enumerate(self.plan.get("commands", [])):
            if spec["match"] in text:
                key = "cmd:%d" % key
                n = self.cond_reads.get(key, 0)
                self.cond_reads[key] = n + 1
                out = dict(spec["script"][n % len(spec["script"])], n=n)
                if out.get("missing"):
                    self.k.fault("command_missing")
                    self.k.event("cmd_missing", rid=CUR_RUN.get(), args=args)
                    raise FileNotFoundError(2, "No such file or directory")
                if out.get("rc"):
                    self.k.fault("command_failure")
                if out.get("out"):
                    out["out"] = "%s%d" % (out["out"], n)
                return out
        return {"rc": 0}

    def on_exec(self, args):
        self.k.event("exec", boot=self.boot_no)
        self.exec_flag = True
        self.k.kill(self.host)

    def cond(self, key):
        spec = self.plan.get("conds", {}).get(key, {})
        k = self.k
        n = self.cond_reads.get(key, 0)
        self.cond_reads[key] = n + 1
        k.tick()
        if n in spec.get("raise_at", ()):
            k.fault("condition_error")
            k.event("cond_raise", key=key)
            raise InjectedError("condition %s" % key)
        for a, b in spec.get("true", []):
            if a <= k.us / 1e6 < b:
                return True
        if spec.get("once"):
            return n in spec["once"]
        return bool(spec.get("default", False))

    def param_value(self, key):
        spec = self.plan.get("pvals", {}).get(key, {})
        n = self.cond_reads.get("p:" + key, 0)
        self.cond_reads["p:" + key] = n + 1
        if n in spec.get("raise_at", ()):
            self.k.fault("parameter_error")
            self.k.event("param_raise", key=key, rid=CUR_RUN.get())
            raise InjectedError("parameter %s" % key)
        if self.plan.get("show_params"):
            p = self.k.current.proc
            self.k.event("param", key=key, n=n, rid=CUR_RUN.get(), child=p.mp is not None)
        return "pv-%s-%d" % (key, n)

    def maybe_hook_fail(self, where, name):
        for f in self.plan.get("faults", []):
            if f["kind"] == "hook_error" and f["where"] == where and f.get("task") == name:
                n = self.hook_fail_count.get((where, name), 0)
                self.hook_fail_count[(where, name)] = n + 1
                if n in f["n"]:
                    self.k.fault("hook_error")
                    self.k.event("hook_raise", task=name, rid=CUR_RUN.get())
                    raise InjectedError("hook")

    # -- durable log -------------------------------------------------------------
    def log_add(self, add, item):
        k = self.k
        if k.current.killed:
            raise SimKilled()
        d = item if isinstance(item, dict) else dict(item)
        n = self.log_seq
        self.log_seq += 1
        k.tick()
        k.point()
        mode = None
        for f in self.plan.get("faults", []):
            if f["kind"] == "log_error" and self._log_match(f, n, d):
                mode = f.get("mode", "lost")
                break
        ev = dict(task=d.get("task_name"), action=d.get("action"),
                  created=int(round(d["created"] * 1e6)), rid=d.get("run_id"), boot=self.boot_no)
        for key in ("start", "end", "runtime"):
            v = d.get(key)
            if isinstance(v, datetime.datetime):
                v = v.timestamp()
            elif isinstance(v, datetime.timedelta):
                v = v.total_seconds()
            if isinstance(v, (int, float)):
                ev[key] = int(round(v * 1e6))
        if mode == "lost":
            k.fault("log_write_lost")
            k.event("log_lost", **ev)
            raise InjectedLogError(28, "No space left on device")
        add(item)
        k.event("log", **ev)
        if mode == "late":
            k.fault("log_write_error_after_write")
            k.event("log_late", **ev)
            raise InjectedLogError(5, "Input/output error")
        k.point()

    def _log_match(self, f, n, d):
        if "n" in f and n not in f["n"]:
            return False
        if "task" in f and d.get("task_name") != f["task"]:
            return False
        if "action" in f and d.get("action") != f["action"]:
            return False
        if "nth" in f:
            c = self.cond_reads.setdefault(id(f), 0)
            self.cond_reads[id(f)] = c + 1
            return c in f["nth"]
        return True

    # -- task functions -----------------------------------------------------------
    def make_func(self, spec):
        """Create the (picklable) function of a task."""
        name = "f_%d" % self._nfunc
        self._nfunc += 1
        args = spec.get("args", [])          # [[name, default expression or None], ...]
        sig = ", ".join(a if d is None else "%s=%s" % (a, d) for a, d in args)
        kw = ", ".join("%s=%s" % (a, a) for a, _ in args)
        if spec.get("async"):
            src = "async def %s(%s):\n    return await W.ainvoke(%r, dict(%s))\n" % (
                name, sig, spec["name"], kw)
        else:
            src = "def %s(%s):\n    return W.invoke(%r, dict(%s))\n" % (
                name, sig, spec["name"], kw)
        ns = funcs.__dict__
        exec(compile(src, "<dst-func>", "exec"), ns)
        return ns[name]

    def _begin(self, task, params):
        k = self.k
        k.point()
        i = self.inv_count.get(task, 0)
        self.inv_count[task] = i + 1
        flag = None
        shown = {}
        for key, val in params.items():
            if isinstance(val, threading.Event):
                flag = val
            else:
                shown[key] = _jsonable(val)
        k.event("inv", task=task, i=i, rid=CUR_RUN.get(), params=shown, boot=self.boot_no,
                proc=k.current.proc.name if k.current.proc.mp else None,
                **({"thread": k.current.name} if self.plan.get("hooks") else {}))
        script = self.specs[task].get("script") or [{}]
        beh = script[i % len(script)]
        return i, beh, flag

    def _end(self, task, i, out, ret=None):
        if self.k.current.killed:
            raise SimKilled()
        self.k.event("inv_end", task=task, i=i, rid=CUR_RUN.get(), out=out, ret=_jsonable(ret))

    def _outcome(self, task, i, beh):
        out = beh.get("out", "ok")
        ret = beh.get("ret", "%s#%d" % (task, i))
        self._end(task, i, out, ret if out == "ok" else None)
        if out == "ok":
            return ret
        if out == "raise":
            self.k.fault("task_exception")
            raise InjectedError("task %s" % task)
        if out == "inaction":
            raise TaskInactionException()
        if out == "term":
            raise TaskTerminationException()
        if out == "exit":
            raise SchedulerExit()
        if out == "restart":
            raise SchedulerRestart()
        if out == "unpicklable":
            return (x for x in ())
        raise AssertionError(out)

    def invoke(self, task, params):
        k = self.k
        i, beh, flag = self._begin(task, params)
        self._steps(beh, task, i, "before")
        dur = beh.get("dur", 0)
        if dur:
            poll = beh.get("poll") if flag is not None else None
            end = k.us + int(dur * 1e6)
            if poll:
                while k.us < end:
                    k.sleep(min(poll, max(1e-6, (end - k.us) / 1e6)))
                    if flag.is_set():
                        if beh.get("on_flag", "term") == "ignore":
                            flag = threading.Event()
                            continue
                        if beh.get("cleanup"):
                            k.sleep(beh["cleanup"])
                        self._end(task, i, "term" if beh.get("on_flag", "term") == "term" else "ok")
                        if beh.get("on_flag", "term") == "term":
                            raise TaskTerminationException()
                        return "stopped"
            else:
                k.sleep(dur)
        if beh.get("die"):
            if k.current.proc.mp is not None:
                k.fault("process_killed_in_function")
                k.event("proc_crash", proc=k.current.proc.name, task=task)
                k.kill(k.current.proc)
        self._steps(beh, task, i, "after")
        return self._outcome(task, i, beh)

    async def ainvoke(self, task, params):
        k = self.k
        i, beh, flag = self._begin(task, params)
        try:
            self._steps(beh, task, i, "before")
            dur = beh.get("dur", 0)
            if dur:
                n = beh.get("slices", 1)
                for _ in range(n):
                    await asyncio.sleep(dur / n)
            self._steps(beh, task, i, "after")
        except asyncio.CancelledError:
            if beh.get("cleanup"):
                await asyncio.sleep(beh["cleanup"])
            self._end(task, i, "cancelled")
            raise
        return self._outcome(task, i, beh)

    def _steps(self, beh, task, i, when):
        for op in beh.get("ops_" + when, []):
            self.do_op(op, by=task)

    # -- operators ----------------------------------------------------------------
    def do_op(self, op, by=None):
        k = self.k
        s = self.session
        kind = op["op"]
        n = k.uid()
        if (op.get("params") or {}).get("x") == "@":
            op = dict(op, params=dict(op["params"], x="u%d" % n))
        k.event("op", n=n, by=by, boot=self.boot_no, **{("name" if a == "op" else a): _jsonable(v)
                                                       for a, v in op.items()})
        err = None
        try:
            if kind == "run":
                params = self.exprs(op.get("params", {}))
                if op.get("as_dict"):
                    s[op["task"]].run(params)
                else:
                    s[op["task"]].run(**params)
            elif kind == "terminate":
                s[op["task"]].terminate()
            elif kind == "disable":
                s[op["task"]].disabled = True
            elif kind == "enable":
                s[op["task"]].disabled = False
            elif kind == "set_cond":
                s[op["task"]].start_cond = self._cond(op["cond"], op)
            elif kind == "priority":
                s[op["task"]].priority = op["value"]
            elif kind == "shut_down":
                s.shut_down(**({"force": op["force"]} if "force" in op else {}))
            elif kind == "restart":
                s.restart()
            elif kind == "hold":
                s.scheduler.on_hold = True
            elif kind == "resume":
                s.scheduler.on_hold = False
            elif kind == "add_task":
                self.specs[op["spec"]["name"]] = op["spec"]
                self.create_task(op["spec"])
            elif kind == "remove_task":
                s.remove_task(op["task"])
            elif kind == "delete_task":
                s[op["task"]].delete()
            elif kind == "set_param":
                s.parameters[op["key"]] = self.exprs(op["value"])
            elif kind == "list":
                [t.name for t in list(s.tasks)]
            elif kind == "contains":
                op["task"] in s
            elif kind == "timeout":
                s[op["task"]].timeout = op["value"]
            elif kind == "force_run":
                s[op["task"]].force_run = True
            else:
                raise AssertionError("unknown op %r" % kind)
        except SimKilled:
            raise
        except (KeyError, RuntimeError, ValueError, TypeError, AttributeError) as exc:
            err = type(exc).__name__ + ": " + str(exc)[:100]
        k.event("op_done", n=n, err=err)

    @staticmethod
    def exprs(v):
        """Values of parameters; {"expr": text} is an argument (an object of rocketry)."""
        if isinstance(v, dict):
            if "expr" in v:
                return eval(v["expr"], funcs.__dict__)
            return {a: World.exprs(x) for a, x in v.items()}
        return v

    def _operator(self, boot, ops):
        k = self.k
        for op in ops:
            at = int(op["at"] * 1e6)
            if at > k.us:
                k.block(at)
            if self.boot_no != boot or self.session is None:
                return
            if "lines" in op:
                # in the midst of a cycle: after so many lines of the scheduler
                self.cycle_waiters.append((k.current, op["lines"]))
                k.block(k.us + int(1e6 * max(2.0, 3 * (self.plan["config"].get("cycle_sleep") or 0))))
                if self.boot_no != boot or self.session is None:
                    return
            self.do_op({a: v for a, v in op.items() if a not in ("at", "op_thread", "lines")}, by="operator")

    # -- the host process ---------------------------------------------------------
    def make_repo(self):
        spec = self.plan.get("repo", {})
        model = MODELS[spec.get("model", "LogRecord")]
        if spec.get("kind", "memory") == "memory":
            repo = SimMemoryRepo(model=model)
            repo.collection = self.store
            return repo
        if self.scratch is None:
            base = "/dev/shm" if os.path.isdir("/dev/shm") else None
            self.scratch = tempfile.mkdtemp(prefix="dst-", dir=base)
        return SimCSVRepo(filename=os.path.join(self.scratch, "log.csv"), model=model)

    def _cond(self, text, spec):
        """The condition itself, or the string for it in rocketry's condition syntax."""
        cond = to_syntax(text) if spec.get("syntax") else None
        return eval(text, self.ns) if cond is None else cond

    def create_task(self, spec):
        ns = self.ns
        kw = {}
        for key in ("execution", "priority", "disabled", "permanent", "on_startup", "on_shutdown",
                    "multilaunch", "timeout", "daemon"):
            if spec.get(key) is not None:
                kw[key] = spec[key]
        if spec.get("end") is not None:
            kw["end_cond"] = eval(spec["end"], ns)
        if spec.get("params"):
            kw["parameters"] = {a: (eval(v["expr"], funcs.__dict__) if isinstance(v, dict) and "expr" in v
                                    else v)
                                for a, v in spec["params"].items()}
        cond = spec.get("own_start" if spec.get("group") else "start")
        cond = self._cond(cond, spec) if cond is not None else None
        if spec.get("command") is not None:
            if spec.get("argform"):
                kw["argform"] = spec["argform"]
            if spec.get("shell"):
                kw["shell"] = True
            if spec.get("cwd"):
                kw["cwd"] = spec["cwd"]
            return self.app.task(cond, name=spec["name"], command=spec["command"], **kw)
        func = self.make_func(spec)
        target, name = self.app, spec["name"]
        if spec.get("group"):
            target = self.groups[spec["group"]]
            name = name[len(target.prefix or ""):]
        target.task(cond, name=name, **kw)(func)

    def build(self):
        plan = self.plan
        clean_loggers()
        slog = logging.getLogger("rocketry.scheduler")
        slog.addHandler(_SchedLog(level=logging.WARNING))
        slog.setLevel(logging.WARNING)
        cfg = dict(plan.get("config", {}))
        if "timezone" in cfg:
            cfg["timezone"] = datetime.timezone(datetime.timedelta(hours=cfg["timezone"]))
        if not plan.get("default_run_id"):
            cfg["func_run_id"] = harness_run_id
        cfg.setdefault("max_process_count", 4)
        tf = plan.get("time_func")
        if tf:
            k = self.k
            cfg["time_func"] = TimeFunc(tf)
        self.app = Rocketry(logger_repo=self.make_repo(), config=cfg)
        self.session = s = self.app.session
        s.set_as_default()
        # A condition given as the shut condition goes around the parser: set directly
        if plan.get("params"):
            self.app.params(**{a: (eval(v["expr"], funcs.__dict__) if isinstance(v, dict) and "expr" in v
                                   else v)
                               for a, v in plan["params"].items()})
        self.ns = cond_namespace()
        if plan.get("fconds"):
            self.app.params(level="L5")
            self.ns["fcond"] = self.app.cond()(fcond)
            self.app.cond(re.compile(r"switch (?P<key>\w+) is on"))(_scond)
            self.ns["scond"] = lambda key: parse_condition("switch %s is on" % key)
        self.specs = {t["name"]: t for t in plan["tasks"]}
        for name in plan.get("hooks", ()):
            s.hook_task_execute()(EXECUTE_HOOKS[name])
        s.hook_scheduler_cycle()(hook_cycle)
        self.app.setup()(hook_startup)
        s.hook_shutdown()(hook_shutdown)
        self.groups = {}
        for key, g in plan.get("groups", {}).items():
            self.groups[key] = Grouper(prefix=g.get("prefix"), execution=g.get("execution"),
                                       start_cond=eval(g["start"], self.ns) if g.get("start") else None)
            if g.get("params"):
                self.groups[key].params(**g["params"])
        for spec in plan["tasks"]:
            self.create_task(spec)
        for key in self.groups:
            self.app.include_grouper(self.groups[key])
        end = plan.get("end", {})
        if end.get("mode") == "shut_cond":
            s.config.shut_cond = AtWall(int(end["at"] * 1e6))
        elif end.get("mode") == "cond":
            s.config.shut_cond = eval(end["cond"], self.ns)
        elif end.get("never"):
            s.config.shut_cond = eval(end["never"], self.ns)

    def _host_main(self):
        k = self.k
        boot = self.boot_no
        try:
            self.build()
        except SimKilled:
            raise
        except Exception as exc:
            k.event("build_error", err=type(exc).__name__ + ": " + str(exc)[:200])
            raise
        by_thread = {}
        for op in self.plan.get("ops", []):
            if self.plan.get("ops_once") and op["at"] * 1e6 < k.us and boot > 1:
                continue
            by_thread.setdefault(op.get("op_thread", 0), []).append(op)
        for n, ops in sorted(by_thread.items()):
            t = threading.Thread(target=self._operator, args=(boot, ops), name="operator-%d" % n,
                                 daemon=True)
            t.start()
            self.operators.append(t._st)
        for rep in range(self.plan.get("sessions", 1)):
            entry = self.plan["entries"][rep] if self.plan.get("entries") else self.plan.get("entry")
            manual = isinstance(entry, dict)
            k.event("sched_start", boot=boot, rep=rep, **({"entry": entry} if manual else {}))
            if self.plan.get("show_attrs"):
                k.event("attrs", attrs=self.attrs())
            err = None
            self.rep = rep
            self.returned = False
            end = self.plan.get("end", {"mode": "shut_down"})
            if end.get("mode", "shut_down") == "shut_down" and not manual:
                at = self.plan["horizon"] if rep == 0 else k.us / 1e6 + self.plan.get("session_len", 3.0)
                self.operators.append(k.spawn(
                    lambda b=boot, r=rep, a=at, n=self.startups: self._end_op(b, r, a, end, n), "ender-%d" % rep, self.host))
            try:
                if entry == "serve":
                    asyncio.run(self.app.serve())
                elif manual:
                    names = [self.session[n] if entry.get("as") == "task" else
                             self.session[n].func if entry.get("as") == "func" else n for n in entry["tasks"]]
                    self.session.run(*names, **entry.get("kw", {}))
                else:
                    self.app.run()
            except SimKilled:
                raise
            except BaseException as exc:
                err = type(exc).__name__
                k.event("sched_raise", err=err, msg=str(exc)[:160],
                        cause=type(exc.__cause__).__name__ if exc.__cause__ else None)
            self.returned = True
            self.snapshot()
            k.event("sched_return", boot=boot, rep=rep, err=err,
                    alive=self.alive_runs())
            if self.plan.get("show_attrs"):
                k.event("attrs", attrs=self.attrs())
            if rep + 1 < self.plan.get("sessions", 1):
                k.sleep(self.plan.get("session_gap", 1))
        k.event("host_exit", boot=boot)

    def alive_runs(self):
        """Threads and processes of tasks which still run (seen by the simulator)."""
        res = []
        for t in self.k.live:
            if t.killed or t in self.operators:
                continue
            if t.proc is self.host and t is not self.host_thread:
                res.append(t.name)
            elif t.proc.parent is self.host and not t.proc.external:
                res.append(t.proc.name)
        return len(res)

    def task_state(self):
        """What the tasks tell about themselves (through the public attributes)."""
        st = {}
        for task in list(self.session.tasks):
            try:
                st[task.name] = {
                    "status": task.status,
                    "batches": len(task.batches),
                    **({"alive": task.is_alive()} if self.plan.get("observe") else {}),
                    **{a: _ts(getattr(task, "last_" + a))
                       for a in ("run", "success", "fail", "terminate", "inaction", "crash")}}
            except Exception as exc:
                st[task.name] = {"error": type(exc).__name__ + ": " + str(exc)[:80]}
        return st

    def attrs(self):
        """The settings of the tasks and of the session."""
        def text(x):
            try:
                return str(x)
            except AttributeError:
                return type(x).__name__
        out = {t.name: {a: text(getattr(t, a)) for a in
                        ("disabled", "execution", "priority", "start_cond", "end_cond", "timeout", "permanent", "multilaunch",
                         "on_startup", "on_shutdown")}
               for t in list(self.session.tasks)}
        out[""] = {"shut_cond": text(self.session.config.shut_cond).replace("None", "false"), "execution": str(self.session.config.execution)}
        return out

    def snapshot(self):
        self.k.event("snap")        # (others may run while the state is being read)
        st = self.task_state()
        self.final = st
        self.k.event("final", state=st)

    def on_cycle(self, phase):
        self.cycles += 1
        if phase == "pre":
            for t, n in self.cycle_waiters:
                self.k.traps.append([self.k.current, n, t])
            self.cycle_waiters.clear()
        if phase == "pre" and self.cycle_events:
            self.k.event("cycle", boot=self.boot_no)
        elif self.cycle_events:
            self.k.event("cycle_end", boot=self.boot_no)
        if self.plan.get("observe") and (len(self.k.events) - self.observed > 3 or self.cycles % 10 == 1):
            since = len(self.k.events)
            self.k.event("state", since=since, state=self.task_state())
            self.observed = len(self.k.events)
        for m in self.monitors:
            m(self, phase)

    # -- driver --------------------------------------------------------------------
    def crash(self):
        k = self.k
        if self.host is None or self.host.dead:
            return
        k.fault("scheduler_crash")
        k.event("crash", boot=self.boot_no)
        self.crash_flag = True
        k.kill(self.host)

    def _boot(self):
        k = self.k
        self.boot_no += 1
        self.operators = []
        self.host = k.new_proc("host-%d" % self.boot_no)
        self.session = None
        self.host_thread = None
        th = seams.SimThread(target=self._host_main, name="MainThread")
        th._started.set()
        th._st = k.spawn(th._sim_main, "MainThread", self.host, py=th)
        self.host_thread = th._st
        for f in self.plan.get("faults", []):
            if f["kind"] == "crash_line" and f.get("boot", 1) == self.boot_no:
                k.line_budget = [self.host, f["lines"], self.crash]

    def _fault_thread(self, f):
        k = self.k
        at = int(f["at"] * 1e6)
        if at > k.us:
            k.block(at)
        kind = f["kind"]
        if kind == "crash":
            self.crash()
        elif kind == "clock_jump":
            k.fault("clock_jump_back" if f["by"] < 0 else "clock_jump_forward")
            k.event("clock_jump", by=f["by"])
            k.offset += int(f["by"] * 1e6)
        elif kind == "stall":
            k.fault("machine_stall")
            k.event("stall", by=f["by"])
            k.us += int(f["by"] * 1e6)
        elif kind == "freeze_host":
            if self.host is not None:
                k.fault("host_freeze")
                k.event("freeze", by=f["by"])
                self.host.frozen_until = k.us + int(f["by"] * 1e6)
        elif kind == "kill_child":
            kids = [p for p in self.host.children if not p.dead and not p.external] if self.host else []
            if kids:
                p = kids[f.get("pick", 0) % len(kids)]
                k.fault("child_process_killed")
                k.event("proc_crash", proc=p.name)
                k.kill(p)
        elif kind == "freeze_child":
            kids = [p for p in self.host.children if not p.dead and not p.external] if self.host else []
            if kids:
                p = kids[f.get("pick", 0) % len(kids)]
                k.fault("child_process_frozen")
                p.frozen_until = k.us + int(f["by"] * 1e6)

    TIMED = ("crash", "clock_jump", "stall", "freeze_host", "kill_child", "freeze_child")

    def driver(self):
        k = self.k
        plan = self.plan
        ext = k.new_proc("outside")
        ext.external = True
        for i, f in enumerate(plan.get("faults", [])):
            if f["kind"] in self.TIMED:
                k.spawn((lambda f=f: self._fault_thread(f)), "fault-%d" % i, ext)
        horizon = plan["horizon"]
        grace = plan.get("grace", 3600)
        stalls = sum(f["by"] for f in plan.get("faults", []) if f["kind"] in ("stall", "freeze_host"))
        limit = int((horizon + grace + stalls) * 1e6)
        end = plan.get("end", {"mode": "shut_down"})
        boots = 0
        while True:
            self.crash_flag = self.exec_flag = self.relaunched = False
            self._boot()
            boots += 1
            while not self.host_done():
                if k.us >= limit:
                    k.event("no_exit")
                    k.stop("no_exit")
                    break
                self.host_thread.joiners.append(k.current)
                k.block(limit)
            if k.finished:
                break
            if self.relaunched and not self.crash_flag:
                k.event("exec", boot=self.boot_no)
                self.exec_flag = True
                k.kill(self.host)
            if self.crash_flag or self.exec_flag:
                if not self.host.exited:
                    # let the killed threads unwind
                    self.host.waiters.append(k.current)
                    k.block(limit)
                if boots >= plan.get("max_boots", 6) or k.us / 1e6 > horizon:
                    break
                k.block(k.us + int(plan.get("downtime", 1.0) * 1e6))
                continue
            break
        if not k.finished:
            # what the interpreter does at exit: non-daemon threads are joined
            k.block(k.us + 1000)
        k.event("end", real_abort=k.abort)
        k.stop()

    def host_done(self):
        return self.host_thread.state == 2

    def _end_op(self, boot, rep, at, end, startups):
        k = self.k
        if at * 1e6 > k.us:
            k.block(int(at * 1e6))
        if boot != self.boot_no or rep != self.rep:
            return
        while self.startups == startups:        # (asking before it has started has no effect)
            k.block(k.us + 100_000)
            if boot != self.boot_no or rep != self.rep or self.returned:
                return
        op = {"op": "shut_down"}
        if "force" in end:
            op["force"] = end["force"]
        self.do_op(op, by="ender")

    def run(self):
        funcs.W = self
        red = sys.modules["rocketry._base"].RedBase
        saved_session = red.session
        saved_argv, sys.argv = sys.argv, list(ARGV)
        gc.disable()
        threading._counter = itertools.count(1).__next__
        try:
            self.k.run(self.driver)
        finally:
            sys.argv = saved_argv
            red.session = saved_session
            rocketry.session = saved_session
            funcs.W = None
            clean_loggers()
            for n in [n for n in funcs.__dict__ if n.startswith("f_")]:
                del funcs.__dict__[n]
            if self.scratch:
                shutil.rmtree(self.scratch, ignore_errors=True)
            gc.enable()
        return self


def _unraisable(info):
    """Coroutines of a simulated host that crashed never end: they complain when they are collected."""
    if funcs.W is not None:
        sys.__unraisablehook__(info)


sys.unraisablehook = _unraisable


def clean_loggers():
    mgr = logging.Logger.manager
    for name in list(mgr.loggerDict):
        if name.startswith("rocketry"):
            del mgr.loggerDict[name]


class TimeFunc:
    """A user supplied measurement of time: an affine function of the wall clock."""

    def __init__(self, spec):
        self.rate = spec.get("rate", 1.0)
        self.base = spec.get("base", 0.0)
        self.t0 = spec.get("t0", 0.0)

    def __call__(self):
        return self.base + (time.time() - self.t0) * self.rate


def _ts(v):
    """Microseconds since the epoch of a datetime (local or aware)."""
    return None if v is None else int(round(v.timestamp() * 1e6))


def run_plan(plan, decisions=None):
    """Execute a plan; returns the World with its history in `world.k.events`."""
    sched = plan.get("sched", {})
    if decisions is None:
        decisions = Decisions(
            seed="sched-%s" % sched.get("seed", plan["seed"]),
            mean_lines=sched.get("mean_lines", 0), stick=sched.get("stick", 0.5),
            replay=sched.get("replay"))
    w = World(plan, decisions)
    w.run()
    return w
