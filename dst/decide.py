"""Start decisions of the scheduler, compared with the reference semantics of the conditions."""
import bisect

from . import ref
from .hist import TERMINAL, V


class Cycle:
    __slots__ = ("i", "i0", "i1", "t0", "t1", "w0", "w1", "boot", "n", "session")

    def __init__(self, i, idx, e):
        self.n = i
        self.i0, self.t0, self.w0 = idx, e["t"], e["w"]
        self.boot = e["boot"]
        self.i1 = self.t1 = self.w1 = None
        self.session = 0


def cycles(h):
    out = []
    n = 0
    sess = 0
    for idx, e in enumerate(h.events):
        k = e["k"]
        if k == "hook_startup" and e["phase"] == "pre":
            n = 0
            sess += 1
        elif k == "cycle":
            c = Cycle(n, idx, e)
            c.session = sess
            n += 1
            out.append(c)
        elif k == "cycle_end" and out and out[-1].i1 is None:
            out[-1].i1, out[-1].t1, out[-1].w1 = idx, e["t"], e["w"]
    return out


def lifetimes(h):
    """{rid: (first event, last event or None)}: when the run occupies a thread, process or coroutine."""
    out = {}
    first, last = {}, {}
    proc = {}
    for idx, e in enumerate(h.events):
        k = e["k"]
        if k == "thread_start":
            first[e["rid"]] = idx
        elif k == "thread_end":
            last[e["rid"]] = idx
        elif k == "proc_start":
            first[e.get("rid")] = idx
            proc[e["proc"]] = e.get("rid")
        elif k == "proc_exit":
            last[proc.get(e["proc"])] = idx
        elif k in ("inv_end", "log") and (k == "inv_end" or e["action"] in TERMINAL):
            r = h.runs.get(e["rid"])
            if r is not None and r.exec == "async":
                last[r.rid] = idx
        elif k in ("crash", "exec"):
            for rid in list(first):
                last.setdefault(rid, idx)
            for r in h.runs.values():
                if r.idx < idx:
                    last.setdefault(r.rid, idx)
    for r in h.runs.values():
        if r.exec == "main":
            continue
        if r.exec == "async":
            out[r.rid] = (r.idx, last.get(r.rid))
        elif r.rid in first:
            out[r.rid] = (first[r.rid], last.get(r.rid))
    return out


class Decider:

    def __init__(self, h, tz=0):
        self.h = h
        self.tz = int(tz * 3600e6)
        self.cycles = cycles(h)
        self.life = lifetimes(h)
        self.logs = {}
        for idx, e in h.logs:
            self.logs.setdefault(e["task"], []).append((idx, e["created"], e["action"]))
        self.idxs = {t: [x[0] for x in v] for t, v in self.logs.items()}
        # the cached time of an action is read a moment before its record is made
        gap = 0
        for idx, e in h.logs:
            since = e.get("end") if e["action"] != "run" else e.get("start")
            r = h.runs.get(e.get("rid"))
            if since is not None and not (e["action"] == "run" and r is not None and r.exec == "process"):
                gap = max(gap, e["created"] - since)
        self.slack = 5000 + gap
        self.ops = {}
        done = {e["n"]: i for i, e in h.kind("op_done")}
        for idx, e in h.kind("op"):
            self.ops.setdefault(e.get("task"), []).append((idx, done.get(e["n"], 1 << 60), e))
        self.reboots = sorted(i for k in ("crash", "exec") for i, _ in h.kind(k))
        self.jumps = [i for i, _ in h.kind("clock_jump")]
        self.startups = [(i, e) for i, e in h.kind("hook_startup") if e["phase"] == "post"]
        self.startups_pre = [(i, e) for i, e in h.kind("hook_startup") if e["phase"] == "pre"]
        self.by_task = {}
        forced = h.plan["config"].get("force_status_from_logs")
        for r in h.runs.values():
            if r.rid in self.life:
                s, e = self.life[r.rid]
                s1, e0 = s, e
                if forced:          # told by the records, which differ a moment from thread or process
                    s1 = next((i for i, x in r.logs if x["action"] == "run"), 1 << 60)
                    e0 = next((i for i, x in r.logs if x["action"] != "run"), None)
                    if e0 is None:
                        e0, e = e, None
                    else:
                        e0, e = (e0, e) if e is None else (min(e0, e), max(e0, e))
                self.by_task.setdefault(r.task, []).append((r, s, s1, e0, e))
        self._alive = {}
        self.n = {"certain_true": 0, "certain_false": 0, "undetermined": 0, "starts": 0}

        self.cuts = sorted(i for k in ("hook_shutdown", "sched_return", "crash", "exec") for i, _ in h.kind(k))

    def cut(self, i):
        """Where a cycle which began at event i and was not completed ended."""
        j = bisect.bisect_right(self.cuts, i)
        return self.cuts[j] if j < len(self.cuts) else 1 << 60

    # ------------------------------------------------------------------ facts
    def alive(self, task, a, b):
        """(certain, possible) numbers of live runs of a task between the events a and b."""
        key = (task, a, b)
        if key in self._alive:
            return self._alive[key]
        sure = maybe = 0
        for r, s, s1, e0, e in self.by_task.get(task, ()):
            if s > b:
                break
            if s1 < a and (e0 is None or e0 > b):
                sure += 1
            if s < b and (e is None or e > a):
                maybe += 1
        self._alive[key] = sure, maybe
        return sure, maybe

    def starts(self, task, a, b):
        out = []
        for r, s, s1, e0, e in self.by_task.get(task, ()):
            if s > b:
                break
            if s < b and (e is None or e > a):
                out.append((r.w, s1 < a and (e0 is None or e0 > b)))
        return out

    def switch(self, task, a, b, on, off, initial=False):
        """Value of something operators switch on and off: True, False, or None while it changes."""
        val = initial
        # (what operators did before the host went down is forgotten)
        since = max([i for i in self.reboots if i < a], default=-1)
        for i0, i1, e in self.ops.get(task, ()):
            if e["name"] not in (on, off) or i0 < since:
                continue
            if i0 > b:
                break
            if i1 < a:
                val = e["name"] == on
            else:
                return None
        return val

    def batch_maybe(self, task, b):
        """Whether a requested run may be pending before event b."""
        asked = sum(1 for i0, i1, e in self.ops.get(task, ()) if e["name"] in ("run", "force_run") and i0 < b)
        if not asked:
            return False
        return True

    def hcond(self, key, st):
        spec = self.h.plan.get("conds", {}).get(key, {})
        if spec.get("raise_at") or spec.get("once"):
            return None
        lo, hi = st.tlo / 1e6, st.thi / 1e6
        val = bool(spec.get("default", False))
        for a, b in spec.get("true", []):
            if a <= lo and hi < b:
                return True
            if not (hi < a or lo >= b):
                return None
        return val

    # ------------------------------------------------------------------ evaluation
    def state(self, task, k, cyc, end, wend, tend, names):
        logs = {}
        for n in names:
            v = self.logs.get(n, ())
            logs[n] = [(c, a) for _, c, a in v[:bisect.bisect_right(self.idxs.get(n, ()), k)]]
        st = ref.State(cyc.w0, wend, logs, task, self.tz,
                       alive={n: self.alive(n, cyc.i0, end) for n in names},
                       starts={n: self.starts(n, cyc.i0, end) for n in names},
                       hcond=self.hcond, cycles=cyc.n)
        pre = [e for i, e in self.startups_pre if i < cyc.i0]
        post = [e for i, e in self.startups if i < cyc.i0]
        st.startup = (pre[-1]["w"], post[-1]["w"]) if pre and post and not self.jumps else None
        st.tlo, st.thi = cyc.t0, tend
        st.slack = self.slack
        return st

    def value(self, task, expr, cyc, end, wend, tend, cached=()):
        """Value of a condition in the scheduler's inspection of a task in one cycle.

        It is evaluated with every set of records it may have seen: those written before the
        cycle and any number of those written meanwhile.
        """
        cond = ref.parse(expr)
        names = ref.mentions(expr) | {task}
        if wend < cyc.w0:
            return None
        ks = {cyc.i0}
        for n in names:
            xs = self.idxs.get(n, [])
            for i in xs[bisect.bisect_right(xs, cyc.i0):bisect.bisect_left(xs, end)]:
                ks.add(i)
        vals = {cond.value(self.state(task, k, cyc, end, wend, tend, names)) for k in sorted(ks)}
        if len(vals) == 1:
            return vals.pop()
        return None

    def unsettled(self, names, cyc, end):
        """A thread wrote a record a moment ago: the cached times may not show it yet."""
        t0 = cyc.t0 - 50_000
        for n in names:
            for r, s, _, _, e in reversed(self.by_task.get(n, ())):
                if r.exec != "thread":
                    break
                if e is not None and e <= cyc.i0:
                    if r.t < t0 - 60_000_000:
                        break
                    continue
                for idx, ev in r.logs:
                    if idx < end and ev["t"] > t0:
                        return True
        return False

    def check(self, task, expr_of=None, must_start=True):
        """Yield the violations of "starts exactly when its condition says so" for one task."""
        h = self.h
        spec = h.spec(task)
        expr0 = spec.get("start")
        runs = sorted((r for r in h.runs.values() if r.task == task), key=lambda r: r.idx)
        idxs = [r.idx for r in runs]
        cap = h.plan["config"].get("max_process_count", 4)
        multi = spec.get("multilaunch")
        if multi is None:
            multi = h.plan["config"].get("multilaunch", False)
        ex = spec.get("execution") or h.plan["config"]["execution"]
        before = 0          # (the list of the tasks is made a moment before the cycle hooks)
        for c in self.cycles:
            listed, before = before, c.i1 if c.i1 is not None else c.i0
            j = bisect.bisect_left(idxs, c.i0)
            stop = c.i1 if c.i1 is not None else self.cut(c.i0)
            started = j < len(runs) and runs[j].idx < stop
            run = runs[j] if started else None
            if started:
                end, wend, tend = run.idx, run.w, run.t
                self.n["starts"] += 1
            elif c.i1 is None:
                continue
            else:
                end, wend, tend = c.i1, c.w1, c.t1
            expr = expr_of(c.i0, end) if expr_of else expr0
            if expr is False:
                self.n["undetermined"] += 1
                continue
            v = self.value(task, expr, c, end, wend, tend)
            if v is not None and self.unsettled(ref.mentions(expr) | {task}, c, end):
                v = None
            if v is None:
                self.n["undetermined"] += 1
                continue
            self.n["certain_true" if v else "certain_false"] += 1
            disabled = self.switch(task, c.i0, end, "disable", "enable", bool(spec.get("disabled")))
            held = self.switch(None, c.i0, end, "hold", "resume")
            if held and any(i0 < end for i0, i1, e in self.ops.get(None, ()) if e["name"] == "shut_down"):
                held = None         # (a shutdown lets a held scheduler go)
            if started and held:
                yield V("held-start", "task %s started at %.6f although the scheduler is on hold"
                        % (task, run.t / 1e6), task=task)
                continue
            if started and self.gone(task, listed):
                yield V("removed-start", "task %s started at %.6f although it was removed from the session"
                        % (task, run.t / 1e6), task=task)
                continue
            if started:
                if self.batch_maybe(task, run.idx):
                    continue
                if v is False:
                    yield V("spurious-start", "task %s started at %.6f (wall %s) although its start condition %s was "
                            "false" % (task, run.t / 1e6, wall(run.w + self.tz), expr), task=task)
                elif disabled:
                    yield V("disabled-start", "task %s started at %.6f although it is disabled"
                            % (task, run.t / 1e6), task=task)
            else:
                if v is not True or not must_start or disabled is not False or held is not False:
                    continue
                if self.removed(task, listed, end):
                    continue
                sure, maybe = self.alive(task, c.i0, c.i1)
                if maybe and not multi:
                    continue
                if ex == "process":
                    n = 0
                    for name in h.world.specs:
                        sp = h.spec(name)
                        if (sp.get("execution") or h.plan["config"]["execution"]) == "process":
                            n += self.alive(name, c.i0, c.i1)[1]
                    if n >= cap:
                        continue
                yield V("missed-start", "task %s did not start in the cycle at %.6f (wall %s .. %s) although its start "
                        "condition %s was true" % (task, c.t0 / 1e6, wall(c.w0 + self.tz), wall(c.w1 + self.tz), expr),
                        task=task)

    def gone(self, task, a):
        """Certainly not part of the session from event a on (or a moment earlier)."""
        val = False
        for name in (task, None):
            for i0, i1, e in self.ops.get(name, ()):
                if e["name"] in ("remove_task", "delete_task") and name == task and not e.get("err"):
                    if i1 < a:
                        val = True
                if e["name"] == "add_task" and e["spec"]["name"] == task and i0 < a:
                    return False
        return val

    def removed(self, task, a, b):
        """Not (certainly) part of the session during the cycle."""
        val = any(t["name"] == task for t in self.h.plan["tasks"])
        for name in (task, None):
            for i0, i1, e in self.ops.get(name, ()):
                if e["name"] in ("remove_task", "delete_task") and name == task:
                    if i0 < b:
                        return True
                if e["name"] == "add_task" and e["spec"]["name"] == task:
                    if i1 < a:
                        val = True
        return not val


def wall(us):
    import datetime
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)).strftime("%a %Y-%m-%d %H:%M:%S.%f")
