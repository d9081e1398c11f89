"""C03 what a task tells about itself (status, last_*, liveness) agrees with the log and with its runs at any time."""
from .. import gen as G
from ..decide import lifetimes
from ..hist import V, died
from .c13 import STARTS, PIPE

ACTIONS = ("run", "success", "fail", "terminate", "inaction", "crash")


def gen(rng, tier):
    p = G.base(rng, 3, 7, tier)
    p["observe"] = True
    p["config"]["silence_task_prerun"] = True
    p["config"]["silence_task_logging"] = rng.random() < 0.5
    p["config"]["max_process_count"] = 8
    p["config"]["restarting"] = "recall"
    if rng.random() < 0.25:
        p["config"]["force_status_from_logs"] = True
    p["repo"]["kind"] = "csv" if rng.random() < 0.2 else "memory"
    p["repo"]["model"] = rng.choice(["MinimalRunRecord", "RunRecord", "TaskRunRecord", "LogRecord", "TaskLogRecord", "MinimalRecord"])
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, STARTS + (PIPE if i else ()))
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=not t.get("async"),
                               durs=(0, 0.01, 0.3, 0.9, 2.5))
        if t["start"] == "false":
            p["ops"].append({"at": G.op_time(rng, p), "op": "run", "task": t["name"]})
        r = rng.random()
        if r < 0.1:
            t["on_startup"] = True
        elif r < 0.2:
            t["on_shutdown"] = True
        if rng.random() < 0.2:
            t["multilaunch"] = True
        if rng.random() < 0.2:
            t["timeout"] = 0.5
        if rng.random() < 0.12:
            t.setdefault("args", []).append(["a", "FuncArg(param_func, key='v%d')" % i])
            p.setdefault("pvals", {})["v%d" % i] = {"raise_at": sorted(rng.sample(range(6), 2))}
        if rng.random() < 0.1:
            p["faults"].append({"kind": "start_error", "task": t["name"], "n": [rng.randint(0, 2)]})
        if rng.random() < 0.1 and p["config"]["silence_task_logging"]:
            p["faults"].append({"kind": "log_error", "task": t["name"], "action": rng.choice(["run", "success", "fail"]),
                                "nth": [rng.randint(0, 2)], "mode": "lost"})
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    for _ in range(rng.choice([0, 1, 2, 4])):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["run", "run", "terminate", "terminate"]),
                         "task": rng.choice(names), "op_thread": 1})
    if rng.random() < 0.1:
        p["ops"].append({"at": G.op_time(rng, p), "op": "restart"})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    r = rng.random()
    if r < 0.15:
        p["faults"].append({"kind": "crash", "at": G.op_time(rng, p)})
        p["downtime"] = rng.choice([0.01, 1.0])
    elif r < 0.3:
        p["sessions"] = 2
        p["end"] = {"mode": "shut_down"}
    if p["repo"]["kind"] == "csv":
        p["horizon"] = min(p["horizon"], 5.0)
        p["config"]["cycle_sleep"] = max(p["config"]["cycle_sleep"] or 0.1, 0.1)
    G.child_faults(rng, p, 0.15)
    p["faults"] = [f for f in p["faults"] if f["kind"] not in ("freeze_host", "log_error")]
    if p["end"]["mode"] == "shut_down" and rng.random() < 0.2:
        p["end"]["force"] = True
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    h.n = {"observations": 0, "undetermined": 0, "alive": 0}
    tol = 20_000 + 30 * h.plan["lat_max"]
    ev = h.events
    forced = h.plan["config"].get("force_status_from_logs")
    life = lifetimes(h)
    runs = {}
    for r in h.runs.values():
        runs.setdefault(r.task, []).append(r)
    ends = {e["rid"]: i for i, e in h.kind("thread_end")}
    recs = {}
    for kind in ("log", "log_lost"):
        for i, e in h.kind(kind):
            recs.setdefault(e["task"], []).append((i, e))
    for t in h.plan["tasks"]:
        name = t["name"]
        mine = []
        for i, e in sorted(recs.get(name, ()), key=lambda x: x[0]):
            action = e["action"]
            lost = e["k"] == "log_lost"
            if lost and action != "run":
                action = "fail"
            r = h.runs.get(e["rid"])
            settled = i
            if r is not None and r.exec == "thread":
                # known only once the thread has gone on
                if e["action"] == "run":
                    settled = min([x.idx0 for x in r.invs] + [ends.get(r.rid, 1 << 60)] +
                                  [k for k, x in r.logs if k > i] or [1 << 60])
                else:
                    settled = ends.get(r.rid, 1 << 60)
            mine.append((i, settled, action, e["created"], lost))
        if forced and any(x[4] for x in mine):
            continue
        multi = t.get("multilaunch") or t.get("multilaunch") is None and h.plan["config"].get("multilaunch")
        mixed = multi and any(r.exec == "thread" for r in runs.get(name, ()))
        for s1, e in h.kind("state"):
            s0 = e.get("since", s1)
            told = e["state"].get(name)
            if told is None:
                continue
            if "error" in told:
                yield V("unreadable", "the state of task %s could not be read: %s" % (name, told["error"]), task=name)
                return
            old = [x for x in mine if x[0] < s0]
            new = [x for x in mine if s0 <= x[0] < s1]
            open_ = [x for x in old if x[1] >= s0]
            if new or (mixed and open_) or (mixed and _overlap(old)):
                h.n["undetermined"] += 1
                continue
            h.n["observations"] += 1
            sure = [x for x in old if x not in open_]
            allowed = {sure[-1][2] if sure else None} | {x[2] for x in open_}
            if told["status"] not in allowed:
                yield V("status", "task %s told the status %s at %.6f; its latest record is %s"
                        % (name, told["status"], e["t"] / 1e6, "/".join(map(str, allowed))), task=name)
                return
            for a in ACTIONS:
                want = [x[3] for x in sure if x[2] == a][-1:] + [x[3] for x in open_ if x[2] == a]
                got = told[a]
                if not want and got is None:
                    continue
                if got is None and open_ and len(want) == sum(x[2] == a for x in open_):
                    continue
                if got is None or not any(abs(got - w) <= tol for w in want):
                    yield V("last", "task %s told last_%s = %s at %.6f; its latest record of that is %s"
                            % (name, a, got, e["t"] / 1e6, want), task=name)
                    return
            # liveness
            lo = hi = 0
            for r in runs.get(name, ()):
                # (a run is over a moment before its thread, process or coroutine is)
                if r.rid in life:
                    a, b = life[r.rid]
                    if a < s1 and (b is None or b > s0 or ev[b]["t"] > ev[s0]["t"] - tol):
                        hi += 1
                        if a < s0 and ev[a]["t"] < ev[s0]["t"] - tol and (b is None or ev[b]["t"] > e["t"] + tol):
                            lo += 1
                elif r.exec == "main":
                    hi += 1
            h.n["alive"] += bool(lo)
            if told["alive"] and not hi or not told["alive"] and lo:
                yield V("alive", "task %s told is_alive() = %s at %.6f with %d runs alive" % (name, told["alive"], e["t"] / 1e6, lo),
                        task=name)
                return


def _overlap(old):
    """Two threads may have written at the same time: either may have been the last to tell."""
    for a, b in zip(old, old[1:]):
        if a[1] > b[0]:
            return True
    return False


def stats(h):
    n = dict(getattr(h, "n", {}))
    n["nontrivial"] = n.get("observations", 0) > 3
    return n
