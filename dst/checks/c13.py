"""C13 crash recovery: after the scheduler died at any point, the tasks begin where the durable log ends."""
from .. import gen as G
from ..decide import Decider
from ..hist import V, died as sched_died
from ..ref import mentions
from .c08 import phase

ACTIONS = ("run", "success", "fail", "terminate", "inaction", "crash")
STARTS = ("every('1 s')", "every('2 s', based='finish')", "secondly", "minutely", "true", "every('3 s') & ~failed",
          "retry(2) | every('4 s')", "~started", "~succeeded", "minutely.between('00', '40')",
          "every('2 s', based='success')", "succeeded | every('5 s')", "failed | ~started", "false",
          "started.this_minute | ~started", "~failed.this_minute")
PIPE = ("after_success('t0')", "after_fail('t0')", "after_finish('t0')", "succeeded('t0')", "~started('t0')")


def gen(rng, tier):
    p = G.base(rng, 4, 9, tier)
    p["states"] = True
    p["config"]["silence_task_prerun"] = True
    p["config"]["max_process_count"] = 8
    p["repo"]["kind"] = "csv" if rng.random() < 0.35 else "memory"
    p["repo"]["model"] = rng.choice(["MinimalRecord", "MinimalRunRecord", "MinimalRunRecord", "RunRecord",
                                     "TaskRunRecord", "LogRecord", "TaskLogRecord"])
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, STARTS + (PIPE if i else ()))
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=not t.get("async"),
                               durs=(0, 0.01, 0.3, 0.9, 2.5))
        if t["start"] == "false":
            p["ops"].append({"at": G.op_time(rng, p), "op": "run", "task": t["name"]})
        if rng.random() < 0.2:
            t["on_startup"] = True
            t["start"] = rng.choice([None, "~succeeded", "every('2 s')", "every('60 s')", "~failed"] +
                                    (list(PIPE) if i else []))
            t["priority"] = rng.choice([0, 5])
        if rng.random() < 0.15:
            t["multilaunch"] = True
        if rng.random() < 0.15:
            t["timeout"] = 0.5
        p["tasks"].append(t)
    if "based=" in (p["tasks"][0]["start"] or "") and any(
            (t["start"] or "") in ("succeeded('t0')", "~started('t0')") for t in p["tasks"]):
        # (without a period of their own they mean the period of t0)
        p["tasks"][0]["start"] = "every('2 s')"
    names = [t["name"] for t in p["tasks"]]
    for _ in range(rng.choice([0, 0, 1, 2])):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["run", "terminate"]), "task": rng.choice(names),
                         "op_thread": 1})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    for b in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.5:
            p["faults"].append({"kind": "crash_line", "boot": b + 1,
                                "lines": int(10 ** rng.uniform(2.5, 5.2))})
        else:
            p["faults"].append({"kind": "crash", "at": G.op_time(rng, p)})
    p["downtime"] = rng.choice([0.01, 0.3, 1.0, 2.5])
    if rng.random() < 0.25:
        # the machine comes back with another time, or long after
        p["faults"].append({"kind": "clock_jump", "at": G.op_time(rng, p), "by": rng.choice([-3, 40, 70, 86400])})
    if p["repo"]["kind"] == "csv":
        p["horizon"] = min(p["horizon"], 6.0)
        p["config"]["cycle_sleep"] = max(p["config"]["cycle_sleep"] or 0.1, 0.1)
    G.child_faults(rng, p, 0.1)
    if rng.random() < 0.15:
        p["sessions"] = 2
        if p["end"]["mode"] == "shut_cond":
            p["end"] = {"mode": "shut_down"}
    if p["end"]["mode"] == "shut_down" and rng.random() < 0.2:
        p["end"]["force"] = True
    return p


def multi(h, t):
    m = t.get("multilaunch")
    return m if m is not None else h.plan["config"].get("multilaunch", False)


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from sched_died(h)
    h.n = {"startups": 0, "crash_records": 0, "states": 0}
    ev = h.events
    pre = [i for i, e in h.kind("hook_startup") if e["phase"] == "pre"]
    post = [i for i, e in h.kind("hook_startup") if e["phase"] == "post"]
    states = [i for i, _ in h.kind("state")]
    crashes = [i for i, _ in h.kind("crash")]
    ids = h.plan["repo"]["model"] in ("MinimalRunRecord", "RunRecord", "TaskRunRecord")
    d = Decider(h)
    recs = {}
    for idx, e in h.logs:
        recs.setdefault(e["task"], []).append((idx, e))
    spans = []
    for n, a in enumerate(pre):
        nxt = pre[n + 1] if n + 1 < len(pre) else len(ev)
        b = next((i for i in post if a < i < nxt), None)
        c = next((i for i in crashes if a < i < nxt), len(ev))
        spans.append((a, b, min(c, nxt)))
    for t in h.plan["tasks"]:
        mine = recs.get(t["name"], [])
        allowed = set()
        for a, b, end in spans:
            h.n["startups"] += 1
            old = [(i, e) for i, e in mine if i < a]
            new = [(i, e) for i, e in mine if a < i < (b if b is not None else end)]
            got = [(i, e) for i, e in new if e["action"] == "crash"]
            allowed |= {i for i, _ in got}
            h.n["crash_records"] += len(got)
            last = old[-1][1] if old else None
            died = last is not None and last["action"] == "run"
            if len(got) > (1 if died else 0):
                yield V("crash-record", "task %s has %d crash records at the startup at %.6f although its latest record "
                        "is %s" % (t["name"], len(got), ev[a]["t"] / 1e6, last and (last["action"], last["rid"])))
                continue
            if died and not got and b is not None:
                yield V("no-crash-record", "the run %s of task %s was lost with the scheduler but the startup at %.6f "
                        "made no crash record" % (last["rid"], t["name"], ev[a]["t"] / 1e6))
                continue
            if got and ids and got[0][1]["rid"] != last["rid"]:
                yield V("crash-id", "the crash record of task %s is of the run %s though the run %s was lost"
                        % (t["name"], got[0][1]["rid"], last["rid"]))
            if got and new[0][1]["action"] != "crash":
                yield V("crash-late", "the task %s ran again before its lost run got the crash record" % t["name"])
            # what the task tells right after the startup
            if b is None or t.get("on_startup"):
                continue
            st = next((i for i in states if i > b), None)
            if st is None:
                continue
            told = ev[st]["state"].get(t["name"])
            if told is None:
                continue
            h.n["states"] += 1
            log = old + got
            want = {x: None for x in ACTIONS}
            for i, e in log:
                want[e["action"]] = e["created"]
            status = log[-1][1]["action"] if log else None
            if told.get("status") != status:
                yield V("status", "after the startup at %.6f the status of task %s is %r but the log ends with %r"
                        % (ev[a]["t"] / 1e6, t["name"], told.get("status", told), status))
            for x in ACTIONS:
                if not close(told.get(x), want[x], d.slack if x == "crash" and got else 2):
                    yield V("last-" + x, "after the startup at %.6f last_%s of task %s is %s but the log tells %s"
                            % (ev[a]["t"] / 1e6, x, t["name"], told.get(x), want[x]))
        for i, e in mine:
            if e["action"] == "crash" and i not in allowed:
                yield V("crash-record", "task %s got a crash record at %.6f while the scheduler was running"
                        % (t["name"], e["t"] / 1e6))
    if h.kind("clock_jump") or h.kind("sched_raise"):
        return
    h.decider = d
    for t in h.plan["tasks"]:
        if t.get("on_startup"):
            yield from startup_task(h, d, t, spans)
            continue
        if multi(h, t):
            continue
        for v in d.check(t["name"]):
            yield v


def startup_task(h, d, t, spans):
    """A startup task decides from the log too."""
    name = t["name"]
    if t["start"] is None:
        return
    others = mentions(t["start"])
    if any(h.spec(n).get("on_startup") for n in others):
        return
    for a, b, end in spans:
        if b is None:
            continue
        got = [r for r in h.task_runs(name) if a < r.idx < b]
        c = phase(h.events, a, b, 1)
        want = d.value(name, t["start"], c, got[0].idx if got else b, got[0].w if got else c.w1,
                       got[0].t if got else c.t1)
        if want is None or d.alive(name, a, b)[1]:
            continue
        h.n["startup_decisions"] = h.n.get("startup_decisions", 0) + 1
        if got and not want and not d.batch_maybe(name, got[0].idx):
            yield V("startup-spurious", "the startup task %s started at %.6f although the log makes its condition %s false"
                    % (name, got[0].t / 1e6, t["start"]))
        if want and not got:
            yield V("startup-missing", "the startup task %s did not start at %.6f although the log makes its condition %s "
                    "true" % (name, c.t0 / 1e6, t["start"]))


def close(a, b, tol):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol


def stats(h):
    n = dict(getattr(h, "n", {}))
    d = getattr(h, "decider", None)
    if d is not None:
        n.update(d.n)
    n["nontrivial"] = bool(h.kind("crash")) and n.get("states", 0) > 0
    n["crashed_with_runs_open"] = n.get("crash_records", 0) > 0
    return n
