"""C09 calendar conditions: daily, weekly ... run once per window, in the window, and do not miss one."""
from .. import gen as G
from ..decide import Decider
from ..hist import died

ADVERB = {"second": "secondly", "minute": "minutely", "hour": "hourly", "day": "daily", "week": "weekly",
          "month": "monthly"}
SCOPES = ("second", "minute", "hour", "day", "week", "month")


def gen(rng, tier):
    scope = rng.choice(SCOPES)
    p = G.scaled(rng, scope, tier)
    if rng.random() < 0.5:
        p["config"]["timezone"] = rng.choice([0, 2, -5, 9, -11, 5.5])
    unit = p["scale"]
    for i in range(rng.randint(1, 4)):
        sc = scope if rng.random() < 0.8 or scope in ("second",) else rng.choice(SCOPES[:SCOPES.index(scope) + 1])
        ex = rng.choice(G.EXECS)
        expr = G.window(rng, ADVERB[sc], sc)
        r = rng.random()
        if r < 0.25:
            other = rng.choice(SCOPES[max(0, SCOPES.index(scope) - 1):])
            expr = "%s & %s" % (expr, G.window(rng, "time_of_" + other, other))
        elif r < 0.4:
            expr = "%s | %s" % (expr, G.window(rng, ADVERB[sc], sc))
        elif r < 0.5:
            expr = "%s & ~%s" % (expr, G.window(rng, "time_of_" + sc, sc))
        t = G.task(rng, "t%d" % i, ex, [expr])
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=False,
                               durs=(0, 0.001, unit / 500, unit / 40))
        for b in t["script"]:
            b["dur"] = min(b["dur"], unit / 200) if ex == "main" else b["dur"]
        p["tasks"].append(t)
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 2)):
            p["faults"].append({"kind": "clock_jump", "at": round(rng.uniform(0, p["horizon"]), 3),
                                "by": round(rng.uniform(0, 1.5) * unit, 3)})
    if rng.random() < 0.3:
        p["faults"].append({"kind": "stall", "at": round(rng.uniform(0, p["horizon"]), 3),
                            "by": round(rng.uniform(0, 1.2) * unit, 3)})
    if rng.random() < 0.25:
        p["faults"].append({"kind": "crash", "at": round(rng.uniform(0, p["horizon"]), 3)})
        p["downtime"] = round(rng.choice([0.01, 0.3, 1.1]) * unit, 3)
    if rng.random() < 0.15:
        p["config"]["force_status_from_logs"] = True
    G.syntax(rng, p)
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    d = Decider(h, h.plan["config"].get("timezone", 0))
    h.decider = d
    for t in h.plan["tasks"]:
        yield from d.check(t["name"])


def stats(h):
    d = getattr(h, "decider", None)
    n = dict(d.n) if d else {}
    n["nontrivial"] = bool(d and d.n["certain_true"] and d.n["certain_false"])
    return n
