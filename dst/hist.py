"""Reading a recorded history: runs, function executions, log records."""

TERMINAL = ("success", "fail", "terminate", "inaction")
OUT2ACTION = {"ok": "success", "raise": "fail", "inaction": "inaction", "term": "terminate",
              "cancelled": "terminate", "exit": "success", "restart": "success"}


class Inv:
    """One execution of a task function."""
    __slots__ = ("task", "i", "rid", "t0", "w0", "t1", "out", "ret", "params", "proc", "boot",
                 "died", "idx0", "idx1")

    def __init__(self, ev, idx):
        self.task = ev["task"]
        self.i = ev["i"]
        self.rid = ev["rid"]
        self.t0 = ev["t"]
        self.w0 = ev["w"]
        self.params = ev["params"]
        self.proc = ev["proc"]
        self.boot = ev["boot"]
        self.t1 = None
        self.out = None
        self.ret = None
        self.died = None        # "terminated" | "crashed" | "host"
        self.idx0 = idx
        self.idx1 = None


class Run:
    __slots__ = ("rid", "task", "t", "w", "exec", "boot", "idx", "invs", "logs", "lost", "proc", "h", "x")

    def __init__(self, ev, idx):
        self.rid = ev["rid"]
        self.task = ev["task"]
        self.t = ev["t"]
        self.w = ev["w"]
        self.exec = ev["exec"]
        self.boot = ev["boot"]
        self.x = ev.get("x")
        self.idx = idx
        self.invs = []
        self.logs = []          # (idx, event)
        self.lost = []
        self.proc = None
        self.h = None

    @property
    def proc_fate(self):
        """None, "terminated" (by the scheduler) or "crashed" (killed by a fault)."""
        d = self.h.procs_dead.get(self.proc)
        return d[0] if d else None

    @property
    def run_logs(self):
        return [e for _, e in self.logs if e["action"] == "run"]

    @property
    def terminals(self):
        return [e for _, e in self.logs if e["action"] in TERMINAL]


class History:

    def __init__(self, world):
        self.world = world
        self.plan = world.plan
        self.events = ev = world.k.events
        self.runs = {}
        self.invs = []
        self.logs = []
        self.anon = []           # records which belong to no run
        self.by_kind = {}
        open_inv = {}
        procs_dead = {}
        for idx, e in enumerate(ev):
            k = e["k"]
            self.by_kind.setdefault(k, []).append((idx, e))
            if k == "start":
                self.runs[e["rid"]] = r = Run(e, idx)
                r.h = self
            elif k == "inv":
                inv = Inv(e, idx)
                self.invs.append(inv)
                open_inv[(inv.task, inv.i)] = inv
                if inv.rid in self.runs:
                    self.runs[inv.rid].invs.append(inv)
            elif k == "inv_end":
                inv = open_inv.pop((e["task"], e["i"]), None)
                if inv is not None:
                    inv.t1, inv.idx1, inv.out, inv.ret = e["t"], idx, e["out"], e["ret"]
            elif k == "log":
                self.logs.append((idx, e))
                r = self.runs.get(e["rid"])
                if r is not None:
                    r.logs.append((idx, e))
                else:
                    self.anon.append((idx, e))
            elif k == "log_lost":
                r = self.runs.get(e["rid"])
                if r is not None:
                    r.lost.append((idx, e))
            elif k == "proc_start":
                r = self.runs.get(e.get("rid"))
                if r is not None:
                    r.proc = e["proc"]
            elif k == "proc_terminate":
                procs_dead.setdefault(e["proc"], ("terminated", idx, e))
            elif k == "proc_crash":
                procs_dead.setdefault(e["proc"], ("crashed", idx, e))
            elif k == "proc_exit":
                for key, inv in list(open_inv.items()):
                    if inv.proc == e["proc"]:
                        inv.t1, inv.idx1 = e["t"], idx
                        inv.died = procs_dead.get(e["proc"], ("crashed",))[0]
                        del open_inv[key]
            elif k == "crash":
                for key, inv in list(open_inv.items()):
                    inv.t1, inv.idx1, inv.died = e["t"], idx, "host"
                open_inv = {}
        self.open_inv = list(open_inv.values())
        self.procs_dead = procs_dead

    def kind(self, k):
        return self.by_kind.get(k, [])

    def spec(self, task):
        return self.world.specs.get(task, {})

    @property
    def aborted(self):
        return self.world.k.abort

    def task_runs(self, task):
        return [r for r in self.runs.values() if r.task == task]

    def cycles(self):
        return [e["t"] for _, e in self.kind("cycle")]


def V(rule, msg, **kw):
    """A violation: a stable rule name and a readable account."""
    d = {"rule": rule, "msg": msg}
    d.update(kw)
    return d


def died(h):
    """The scheduler must not end with an error which nothing in the plan causes."""
    p = h.plan
    if any(f["kind"] in ("log_error", "hook_error", "start_error", "proc", "kill_child") for f in p.get("faults", ())):
        return
    if any(c.get("raise_at") for c in list(p.get("conds", {}).values()) + list(p.get("pvals", {}).values())):
        return
    for _, e in h.kind("sched_raise"):
        yield V("died", "the scheduler ended at %.6f with %s: %s" % (e["t"] / 1e6, e["err"], e["msg"]), err=e["err"])
