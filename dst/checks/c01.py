"""C01 single flight: executions of one task overlap only where multilaunch is on."""
from .. import gen as G
from ..hist import V


def gen(rng, tier):
    p = G.base(rng, 5, 16, tier)
    p["config"]["multilaunch"] = rng.random() < 0.2
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS + ("thread", "process", None))
        t = G.task(rng, "t%d" % i, ex, G.STARTS)
        if ex is None:
            eff = p["config"]["execution"]
            if eff == "async":
                t["async"] = True
            t["script"] = G.script(rng, execution=eff)
        r = rng.random()
        if r < 0.15:
            t["multilaunch"] = True
        elif r < 0.5:
            t["multilaunch"] = False
        if rng.random() < 0.25:
            t["timeout"] = rng.choice([0.2, 0.5, 1.0])
        if rng.random() < 0.1:
            t["on_startup"] = True
        if rng.random() < 0.1:
            t["on_shutdown"] = True
        if rng.random() < 0.2:
            for b in t["script"]:
                if b.get("poll"):
                    b["on_flag"] = rng.choice(["ignore", "term"])
                    b["cleanup"] = rng.choice([0, 0.3, 1.2])
                elif t.get("async"):
                    b["cleanup"] = rng.choice([0, 0.3])
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    for _ in range(rng.randint(0, 8)):
        n = rng.choice(names)
        at = G.op_time(rng, p)
        for j in range(rng.choice([1, 1, 2, 4])):
            p["ops"].append({"at": round(at + j * rng.choice([0, 0.0005, 0.05]), 4), "op": "run", "task": n,
                             "op_thread": rng.randint(0, 1)})
    for _ in range(rng.choice([0, 0, 1, 3])):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["terminate", "disable", "enable", "force_run"]),
                         "task": rng.choice(names)})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p)
    if rng.random() < 0.4:
        G.clock_faults(rng, p)
    G.child_faults(rng, p)
    if rng.random() < 0.15:
        p["faults"].append({"kind": "log_error", "n": [rng.randint(1, 12)],
                            "mode": rng.choice(["lost", "late"])})
    p["config"]["silence_task_prerun"] = rng.random() < 0.6
    p["config"]["silence_task_logging"] = rng.random() < 0.6
    if rng.random() < 0.2:
        p["config"]["force_status_from_logs"] = True
    if rng.random() < 0.2:
        p["sessions"] = 2
        p["end"] = {"mode": "shut_down"}
    return p


def allowed(h, name):
    s = h.spec(name)
    m = s.get("multilaunch")
    return m if m is not None else h.plan["config"].get("multilaunch", False)


def oracle(h):
    open_ = {}
    ends = {}
    for inv in h.invs:
        ends.setdefault(inv.task, []).append(inv)
    for name, invs in ends.items():
        if allowed(h, name):
            continue
        last = None
        for inv in invs:                      # in order of their beginning
            if last is not None and (last.idx1 is None or last.idx1 > inv.idx0):
                yield V("overlap", "task %s: execution %d (run %s) began at %.6f while execution %d (run %s) %s"
                        % (name, inv.i, inv.rid, inv.t0 / 1e6, last.i, last.rid,
                           "was never over" if last.idx1 is None else "lasted until %.6f" % (last.t1 / 1e6)),
                        task=name)
                return
            if last is None or last.idx1 is not None and (inv.idx1 is None or inv.idx1 > last.idx1):
                last = inv


def stats(h):
    over = sum(1 for a, b in zip(h.invs, h.invs[1:]) if a.idx1 and a.idx1 > b.idx0)
    per = {}
    for i in h.invs:
        per[i.task] = per.get(i.task, 0) + 1
    return {"executions": len(h.invs), "concurrent_neighbours": over,
            "nontrivial": any(n > 1 and not allowed(h, t) for t, n in per.items())}
