"""C10 intervals: every(x) starts a task when, and only when, x has passed since what it is based on."""
from .. import gen as G
from ..decide import Decider
from ..hist import V, died
from .. import ref


def interval(rng, unit):
    n = unit * rng.choice([0.03, 0.1, 0.25, 0.5, 1.0, 1.5])
    if n < 2:
        return rng.choice(["%d ms" % max(1, round(n * 1000)), "%.3f s" % n])
    if n < 100:
        return rng.choice(["%d s", "%d seconds", "%d sec"]) % round(n)
    if n < 3 * 3600:
        m = max(1, round(n / 60))
        return rng.choice(["%d min" % m, "%d minutes" % m, "%d s" % (m * 60),
                           "%d min %d s" % (m, rng.randint(1, 59))])
    hh = max(1, round(n / 3600))
    return rng.choice(["%d hours" % hh, "%d h %d min" % (hh, rng.randint(1, 59)), "%d days" % max(1, round(hh / 24))])


def gen(rng, tier):
    scope = rng.choice(["second", "second", "minute", "hour", "day"])
    p = G.scaled(rng, scope, tier)
    unit = p["scale"]
    if scope == "second":
        p["horizon"] = round(rng.uniform(5, 14), 3)
        p["sched"]["mean_lines"] = rng.choice([0, 0, 600, 100, 30])
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS)
        based = rng.choice(["run", "run", "run", "success", "fail", "finish"])
        expr = "every(%r)" % interval(rng, unit) if based == "run" and rng.random() < 0.7 else \
            "every(%r, based=%r)" % (interval(rng, unit), based)
        r = rng.random()
        if r < 0.1:
            expr += " & every(%r, based='finish')" % interval(rng, unit)
        elif r < 0.2:
            expr = "(%s) | every(%r)" % (expr, interval(rng, unit * 3))
        elif r < 0.3:
            expr += " & ~running"
        t = G.task(rng, "t%d" % i, ex, [expr])
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=False,
                               durs=(0, 0.001, 0.05, unit / 100, unit / 8))
        for b in t["script"]:
            b["dur"] = min(b["dur"], unit / 200) if ex == "main" else b["dur"]
        if rng.random() < 0.15:
            t["multilaunch"] = True
        if rng.random() < 0.15:
            t["timeout"] = unit / 20
        p["tasks"].append(t)
    if rng.random() < 0.3:
        p["faults"].append({"kind": "clock_jump", "at": round(rng.uniform(0, p["horizon"]), 3),
                            "by": round(rng.uniform(0, 1.5) * unit, 3)})
    if rng.random() < 0.3:
        p["faults"].append({"kind": "stall", "at": round(rng.uniform(0, p["horizon"]), 3),
                            "by": round(rng.uniform(0, 1.2) * unit, 3)})
    if rng.random() < 0.2:
        p["faults"].append({"kind": "crash", "at": round(rng.uniform(0, p["horizon"]), 3)})
        p["downtime"] = round(rng.choice([0.01, 0.3, 1.1]) * unit, 3)
    G.child_faults(rng, p, 0.15)
    if rng.random() < 0.15:
        p["config"]["force_status_from_logs"] = True
    G.syntax(rng, p)
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    d = Decider(h)
    h.decider = d
    for t in h.plan["tasks"]:
        yield from d.check(t["name"])


def stats(h):
    d = getattr(h, "decider", None)
    n = dict(d.n) if d else {}
    n["nontrivial"] = bool(d and d.n["certain_true"] and d.n["certain_false"])
    return n
