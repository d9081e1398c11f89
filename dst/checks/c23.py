"""C23 pace: cycle_sleep between cycles, and only main executions hold the scheduler and the other runs up."""
from .. import gen as G
from ..hist import V, died

SLACK = 60_000          # us: what the simulated latencies of one cycle can add up to


def gen(rng, tier):
    p = G.base(rng, 4, 10, tier)
    cfg = p["config"]
    cfg["cycle_sleep"] = rng.choice([0.02, 0.05, 0.1, 0.1, 0.3, 0.7, None])
    p["lat_max"] = rng.choice([5, 20])
    if cfg["cycle_sleep"] is None:
        p["lat_max"] = 1000
        p["sched"] = {"mean_lines": 0, "stick": rng.choice([0.2, 0.5])}
        p["horizon"] = round(rng.uniform(2, 4), 3)
        if p["end"]["mode"] == "shut_cond":
            p["end"]["at"] = p["horizon"]
    cfg["multilaunch"] = rng.random() < 0.2
    cfg["silence_task_prerun"] = True
    cfg["max_process_count"] = rng.choice([2, 4])
    for i in range(rng.randint(2, 5)):
        ex = rng.choice(["async", "async", "thread", "thread", "process", "main"])
        t = G.task(rng, "t%d" % i, ex, ("every('0.3 s')", "every('0.5 s')", "every('1 s')", "every('2 s', based='finish')",
                                        "every('700 ms')", "true" if not cfg["multilaunch"] and cfg["cycle_sleep"] else "secondly"))
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "ok", "raise", "inaction"), poll=not t.get("async"),
                               durs=(0, 0.01, 0.2, 0.5, 1.1, 2.5))
        if ex == "main":
            for b in t["script"]:
                b["dur"] = rng.choice((0, 0.01, 0.1, 0.4, 1.2))
        if rng.random() < 0.15:
            t["priority"] = rng.choice([1, 3])
        if rng.random() < 0.1:
            t["timeout"] = 0.4
        if rng.random() < 0.1 and ex == "process":
            p["faults"].append({"kind": "proc", "task": t["name"], "n": rng.randint(0, 3), "delay": rng.choice([0.2, 1.0])})
        if rng.random() < 0.08:
            t["on_startup"] = True
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    for _ in range(rng.choice([0, 0, 2, 4])):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["run", "run", "run", "terminate", "disable", "enable"]),
                         "task": rng.choice(names), "op_thread": rng.randint(0, 1)})
    if rng.random() < 0.15:
        a = G.op_time(rng, p)
        p["ops"] += [{"at": a, "op": "hold"}, {"at": round(a + 1.3, 4), "op": "resume"}]
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    G.clock_faults(rng, p, 0.3)
    if rng.random() < 0.15:
        p["faults"].append({"kind": "kill_child", "at": round(rng.uniform(0.3, p["horizon"]), 3), "pick": rng.randint(0, 3)})
    if rng.random() < 0.1:
        p["faults"].append({"kind": "freeze_host", "at": round(rng.uniform(0.3, p["horizon"]), 3), "by": rng.choice([0.3, 2.5])})
    return p


def oracle(h):
    h.n = {"cycles": 0, "executions": 0, "held": 0}
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    cs = h.plan["config"]["cycle_sleep"]
    cs = int((cs or 0) * 1e6)
    specs = {t["name"]: t for t in h.plan["tasks"]}
    slack = SLACK + 40 * h.plan["lat_max"]
    if not cs:
        slack = 1_500_000                     # a scheduler which never sleeps may keep the processor from threads
    end = h.events[-1]["t"]
    busy = []                                 # when the thread of the scheduler cannot go on
    for v in h.invs:
        if h.runs.get(v.rid) is not None and h.runs[v.rid].exec == "main":
            busy.append((v.t0, v.t1 if v.t1 is not None else end))
    for r in h.runs.values():
        if r.exec == "process":               # the scheduler waits until the process has come up
            busy.append((r.t, r.logs[0][1]["t"] if r.logs else end))
    faults = [(e["t"], int(e["by"] * 1e6)) for k in ("stall", "freeze") for _, e in h.kind(k)]

    def held(a, b, by=busy):
        ans = sum(max(0, min(b, y) - max(a, x)) for x, y in by)
        return ans + sum(d for t, d in faults if a - d <= t <= b)

    last = began = None
    for e in h.events:
        k = e["k"]
        if k in ("hook_startup", "hook_shutdown", "crash") or (k == "op" and e["name"] in ("shut_down", "restart")):
            last = began = None
        elif k == "cycle":
            h.n["cycles"] += 1
            if last is not None:
                gap = e["t"] - last
                if gap < cs - 1000:
                    yield V("early", "a cycle began at %.6f, %.6f s after the last one ended; cycle_sleep is %s"
                            % (e["t"] / 1e6, gap / 1e6, cs / 1e6))
                if gap > cs + slack + held(last, e["t"]):
                    yield V("late", "a cycle began at %.6f, %.6f s after the last one ended; cycle_sleep is %s"
                            % (e["t"] / 1e6, gap / 1e6, cs / 1e6))
                h.n["held"] += held(last, e["t"]) > slack
            began, last = e["t"], None
        elif k == "cycle_end":
            if began is not None and e["t"] - began > slack + held(began, e["t"]):
                yield V("long", "the cycle which began at %.6f took %.6f s without a main task to execute"
                        % (began / 1e6, (e["t"] - began) / 1e6))
            last, began = e["t"], None
    ends = [e["t"] for _, e in h.kind("cycle_end")] + [e["t"] for _, e in h.kind("hook_startup") if e["phase"] == "post"]
    ends.sort()
    for r in h.runs.values():
        if not r.invs:
            continue
        v = r.invs[0]
        h.n["executions"] += 1
        who = "run %s of task %s (%s, started %.6f)" % (r.rid, r.task, r.exec, r.t / 1e6)
        lim = r.t
        if r.exec == "async":                 # begins at the latest when the scheduler goes to sleep
            lim = next((t for t in ends if t >= r.t), end)
        if r.exec != "main" and v.t0 > lim + slack + held(r.t, v.t0):
            yield V("begin", "%s began to execute only at %.6f" % (who, v.t0 / 1e6), exec=r.exec)
        spec = specs[r.task]
        b = spec["script"][v.i % len(spec["script"])]
        if v.t1 is None or v.out not in ("ok", "raise", "inaction"):
            continue
        took = v.t1 - v.t0
        by = busy if r.exec == "async" else ()
        if r.exec != "main" and took > int(b.get("dur", 0) * 1e6) + slack + held(v.t0, v.t1, by):
            yield V("slow", "%s took %.6f s; alone it takes %s" % (who, took / 1e6, b.get("dur", 0)), exec=r.exec)


def stats(h):
    n = dict(getattr(h, "n", {}))
    n["nontrivial"] = n.get("cycles", 0) > 5 and n.get("executions", 0) > 2
    return n
