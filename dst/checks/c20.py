"""C20 hooks: every hook wraps what it is set for exactly once, in the run it belongs to."""
from .. import gen as G
from ..hist import V, died

STARTS = G.STARTS + ("~started", "every('3 s')")
HOOKS = ("execute", "execute2", "plain")
EXC = {"ok": {None}, "raise": {"InjectedError"}, "inaction": {"TaskInactionException"}, "term": {"TaskTerminationException"},
       "cancelled": {"CancelledError"}, "exit": {"SchedulerExit"}, "restart": {"SchedulerRestart"}, "unpicklable": None}


def gen(rng, tier):
    p = G.base(rng, 3, 8, tier)
    p["config"]["multilaunch"] = rng.random() < 0.3
    p["config"]["silence_task_prerun"] = True
    p["config"]["restarting"] = "recall"
    p["hooks"] = rng.sample(HOOKS, rng.choice([1, 2, 2, 3]))
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, STARTS)
        outs = ["ok", "ok", "raise", "inaction", "term"] + (["unpicklable"] if ex == "process" else [])
        t["script"] = G.script(rng, execution=ex, outs=outs, poll=not t.get("async"), durs=(0, 0.01, 0.2, 0.9, 2.0))
        if rng.random() < 0.2:
            t["timeout"] = rng.choice([0.2, 0.5])
        r = rng.random()
        if r < 0.12:
            t["on_startup"] = True
        elif r < 0.25:
            t["on_shutdown"] = True
            t["start"] = rng.choice([None, "true"])
        if rng.random() < 0.15:
            key = "v%d" % i
            t.setdefault("args", []).append(["a", "FuncArg(param_func, key=%r)" % key])
            p.setdefault("pvals", {})[key] = {"raise_at": sorted(rng.sample(range(8), 2))}
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    if "execute" in p["hooks"] and rng.random() < 0.3:
        p["faults"].append({"kind": "hook_error", "where": "execute_pre", "task": rng.choice(names),
                            "n": sorted(rng.sample(range(6), 2))})
    for _ in range(rng.randint(0, 5)):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["run", "run", "terminate"]),
                         "task": rng.choice(names), "op_thread": rng.randint(0, 1)})
    if rng.random() < 0.2:
        p["ops"].append({"at": G.op_time(rng, p), "op": "restart"})
    if rng.random() < 0.15:
        p["tasks"].append({"name": "ender", "execution": "main", "start": "hcond('stop') & ~started",
                           "script": [{"out": rng.choice(["exit", "restart"])}]})
        p["conds"]["stop"] = {"true": [[G.op_time(rng, p), 1e9]]}
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p)
    if rng.random() < 0.3:
        G.clock_faults(rng, p)
    G.child_faults(rng, p, 0.2)
    if p["end"]["mode"] == "shut_down" and rng.random() < 0.3:
        p["end"]["force"] = True
    if rng.random() < 0.2:
        p["sessions"] = 2
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    h.n = {"wrapped": 0, "phases": 0}
    yield from _runs(h)
    yield from _phases(h)


def _runs(h):
    index = {name: n for n, name in enumerate(HOOKS)}
    mine = [index[x] for x in h.plan["hooks"]]
    pre, post = {}, {}
    for d, kind in ((pre, "hook_pre"), (post, "hook_post")):
        for i, e in h.kind(kind):
            d.setdefault(e["rid"], []).append((i, e))
            if e["rid"] not in h.runs:
                yield V("no-run", "a hook ran for no run at %.6f" % (e["t"] / 1e6))
                return
    failed = {e["rid"] for k in ("hook_raise", "param_raise") for _, e in h.kind(k)}
    ended = bool(h.kind("host_exit"))
    for r in h.runs.values():
        who = "run %s of task %s (%s, started %.6f)" % (r.rid, r.task, r.exec, r.t / 1e6)
        inv = r.invs[0] if r.invs else None
        before, after = pre.get(r.rid, []), post.get(r.rid, [])
        for n in mine:
            a = [(i, e) for i, e in before if e["h"] == n]
            b = [(i, e) for i, e in after if e["h"] == n]
            hook = HOOKS[n]
            if len(a) > 1:
                yield V("pre", "hook %s ran %d times before the execution of %s" % (hook, len(a), who), exec=r.exec)
            if len(b) > 1:
                yield V("post", "hook %s was completed %d times for %s" % (hook, len(b), who), exec=r.exec)
            if b and (not a or a[0][0] > b[0][0]):
                yield V("order", "hook %s was completed for %s but not begun" % (hook, who), exec=r.exec)
            for i, e in a + b:
                if e["task"] != r.task:
                    yield V("task", "hook %s of %s was given the task %s" % (hook, who, e["task"]), exec=r.exec)
            if inv is None:
                continue
            where = (inv.proc or "host", h.events[inv.idx0].get("thread"))
            if not a or a[0][0] > inv.idx0:
                yield V("pre", "%s executed its function before hook %s" % (who, hook), exec=r.exec)
                continue
            for i, e in a + b:
                if (e["proc"], e["thread"]) != where:
                    yield V("where", "hook %s ran in %s but the function of %s in %s"
                            % (hook, (e["proc"], e["thread"]), who, where), exec=r.exec)
            if inv.out is None or n == 2:
                continue
            # the function has ended: the rest of the hook follows, with how it ended
            if not b:
                dead = r.proc_fate is not None or not ended or h.kind("crash")
                if not dead:
                    yield V("post", "hook %s was not completed for %s, which ended with %r" % (hook, who, inv.out), exec=r.exec)
                continue
            if b[0][0] < inv.idx1:
                yield V("order", "hook %s was completed for %s before its function ended" % (hook, who), exec=r.exec)
            h.n["wrapped"] += 1
            want = EXC[inv.out]
            got = b[0][1]["exc"]
            if want is None and got is None or want is not None and got not in want:
                yield V("exc", "hook %s of %s was told %s; the function ended with %r" % (hook, who, got, inv.out), exec=r.exec)
        if r.rid in failed and inv is not None and any(e["rid"] == r.rid for _, e in h.kind("hook_raise")):
            yield V("vain", "%s executed its function though a hook had failed" % who, exec=r.exec)


def _phases(h):
    """Startup, cycles and shutdown: each begun and completed once, in turn, around what belongs to them."""
    special = {t["name"]: "startup" if t.get("on_startup") else "shutdown" for t in h.plan["tasks"]
               if t.get("on_startup") or t.get("on_shutdown")}
    both = {t["name"] for t in h.plan["tasks"] if t.get("on_startup") and t.get("on_shutdown")}
    state = None            # None | up | idle | cycle | down | over
    broken = False
    for i, e in enumerate(h.events):
        k = e["k"]
        at = "at %.6f" % (e["t"] / 1e6)
        if k in ("sched_start", "crash"):
            state = None
            broken = False
        elif k == "sched_raise":
            broken = True
        elif k == "hook_startup":
            if e["phase"] == "pre":
                if state not in (None, "over"):
                    yield V("phase", "the startup hooks began while %s %s" % (state, at))
                state = "up"
            else:
                if state != "up":
                    yield V("phase", "the startup hooks were completed while %s %s" % (state, at))
                state = "idle"
                h.n["phases"] += 1
        elif k == "cycle":
            if state != "idle":
                yield V("phase", "the cycle hooks began while %s %s" % (state, at))
            state = "cycle"
        elif k == "cycle_end":
            if state != "cycle":
                yield V("phase", "the cycle hooks were completed while %s %s" % (state, at))
            state = "idle"
        elif k == "hook_shutdown":
            if e["phase"] == "pre":
                # (a failure or an exit leaves a startup or a cycle uncompleted)
                if state not in ("idle", "cycle", "up"):
                    yield V("phase", "the shutdown hooks began while %s %s" % (state, at))
                state = "down"
            else:
                if state != "down":
                    yield V("phase", "the shutdown hooks were completed while %s %s" % (state, at))
                state = "over"
                h.n["phases"] += 1
        elif k == "sched_return":
            if state != "over" and not broken:
                yield V("phase", "the scheduler returned while %s %s" % (state, at))
        elif k == "start":
            want = special.get(e["task"], "cycle")
            ok = {"startup": "up", "shutdown": "down", "cycle": "cycle"}[want]
            if state != ok and not (e["task"] in both and state in ("up", "down")):
                yield V("outside", "task %s (%s) was started while %s %s" % (e["task"], want, state, at))


def stats(h):
    n = dict(getattr(h, "n", {}))
    n["nontrivial"] = n.get("wrapped", 0) > 1
    return n
