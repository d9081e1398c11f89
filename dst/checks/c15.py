"""C15 limits: never more processes than max_process_count, never more runs than a running condition allows; slots are used."""
from .. import gen as G
from ..decide import Decider
from ..hist import V, died

RUNNING = ("running < 1", "running < 2", "running < 3", "~running", "every('0.3 s') & (running < 2)", "(running <= 1) & true",
           "~running('t0')", "running('t0') < 2", "every('0.4 s') & ~running('t0')", "running('t0') == 0")


def gen(rng, tier):
    p = G.base(rng, 3, 8, tier)
    cfg = p["config"]
    cfg["max_process_count"] = cap = rng.choice([1, 1, 2, 3])
    cfg["multilaunch"] = rng.random() < 0.5
    cfg["silence_task_prerun"] = True
    procs = rng.random() < 0.75
    for i in range(rng.randint(2, 5)):
        ex = rng.choice(["process", "process", "process"] + list(G.EXECS)) if procs else rng.choice(["async", "thread", "process"])
        starts = ("true", "every('0.3 s')", "every('0.5 s')") + (RUNNING if not procs or rng.random() < 0.3 else ())
        t = G.task(rng, "t%d" % i, ex, starts if procs else RUNNING)
        if "running" in t["start"]:
            t["multilaunch"] = True
        elif rng.random() < 0.2:
            t["multilaunch"] = rng.random() < 0.5
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=not t.get("async"),
                               durs=(0, 0.01, 0.2, 0.5, 1.1))
        if rng.random() < 0.12:
            t["on_startup"] = True
            t["start"] = rng.choice([None, "true"])
        elif rng.random() < 0.12:
            t["on_shutdown"] = True
            t["start"] = rng.choice([None, "true"])
        if rng.random() < 0.15:
            t["timeout"] = 0.25
        if rng.random() < 0.3:
            t["priority"] = rng.choice([1, 3])
        if rng.random() < 0.15 and ex == "process":
            p["faults"].append({"kind": "proc", "task": t["name"], "n": rng.randint(0, 3),
                                "delay": rng.choice([0.2, 1.0])})
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    for _ in range(rng.choice([0, 0, 1, 3, 5])):
        at = G.op_time(rng, p)
        n = rng.choice(names)
        for j in range(rng.choice([1, 2, 4])):
            p["ops"].append({"at": round(at + j * rng.choice([0, 0.0005, 0.05]), 4), "op": "run", "task": n,
                             "op_thread": rng.randint(0, 1)})
    for _ in range(rng.choice([0, 0, 1])):
        p["ops"].append({"at": G.op_time(rng, p), "op": "terminate", "task": rng.choice(names)})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    G.child_faults(rng, p, 0.2)
    G.clock_faults(rng, p, 0.1, back=False)
    if rng.random() < 0.15:
        p["sessions"] = 2
        p["end"] = {"mode": "shut_down"}
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    cap = h.plan["config"]["max_process_count"]
    live = {}
    h.n = {"processes": 0, "at_cap": 0, "most": 0}
    for i, e in enumerate(h.events):
        k = e["k"]
        if k == "proc_start":
            h.n["processes"] += 1
            live[e["proc"]] = e.get("rid")
            h.n["most"] = max(h.n["most"], len(live))
            if len(live) == cap:
                h.n["at_cap"] += 1
            if len(live) > cap:
                yield V("cap", "%d processes of tasks are alive at %.6f; max_process_count is %d (%s)"
                        % (len(live), e["t"] / 1e6, cap, ", ".join(h.runs[r].task for r in live.values() if r in h.runs)))
                return
        elif k == "proc_exit":
            live.pop(e["proc"], None)
    if h.kind("sched_raise"):
        return
    d = Decider(h)
    h.decider = d
    for t in h.plan["tasks"]:
        if t.get("on_startup") or t.get("on_shutdown"):
            continue
        yield from d.check(t["name"])


def stats(h):
    n = dict(getattr(h, "n", {}))
    if getattr(h, "decider", None):
        n.update(h.decider.n)
    n["nontrivial"] = n.get("at_cap", 0) > 0 or any("running" in (t["start"] or "") for t in h.plan["tasks"])
    return n
