"""C11 cron: a task runs once in every matching minute in which the scheduler is up, and in no other."""
from .. import gen as G
from ..decide import Decider
from ..hist import died
from ..ref import CronPeriod

DOW = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
MON = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]


def field(rng, lo, hi, names=None, base=0, star=0.3, wrap=False):
    r = rng.random()
    if r < star:
        return "*"

    def one():
        x = rng.randint(lo, hi)
        if names and rng.random() < 0.5:
            if base == 1 and x == 0:
                x = 7
            return names[x - base]
        return str(x)
    if r < star + 0.2:
        return one()
    if r < star + 0.35:
        return ",".join(sorted({one() for _ in range(rng.randint(2, 4))}))
    if r < star + 0.5:
        return "*/%d" % rng.choice([1, 2, 3, 5, 7, 10, 15])
    a, b = sorted((rng.randint(lo, hi), rng.randint(lo, hi)))
    if a == b:
        return str(a)
    if names and a >= base and rng.random() < 0.5:
        txt = "%s-%s" % (names[a - base], names[b - base])
    else:
        txt = "%d-%d" % (a, b)
    if rng.random() < 0.35:
        txt += "/%d" % rng.choice([1, 2, 3, 5])
    if rng.random() < 0.15:
        txt += "," + one()
    return txt


def expression(rng, scope):
    f = [field(rng, 0, 59), field(rng, 0, 23), field(rng, 1, rng.choice([28, 28, 31])), field(rng, 1, 12, MON, 1),
         field(rng, *rng.choice([(1, 7), (1, 6), (0, 6)]), DOW, 1)]
    keep = {"hour": (0.9, 0.5, 0.05, 0.05, 0.05), "day": (0.7, 0.9, 0.4, 0.1, 0.4), "month": (0.3, 0.5, 0.8, 0.7, 0.6)}[scope]
    f = [x if rng.random() < k else "*" for x, k in zip(f, keep)]
    if rng.random() < 0.12:
        f[4] = "%s-%d" % (rng.choice(["0", "0", "sun"]), rng.randint(1, 6))
        if f[4][0] == "s":
            f[4] = "sun-" + DOW[int(f[4][-1]) - 1]
        if rng.random() < 0.6:
            f[4] += "/%d" % rng.choice([1, 2, 3])
    elif f[4] == "6" and rng.random() < 0.5:
        f[4] = "0"
    if f[4] == "*":
        doms, months = CronPeriod.field(f[2], 1, 31), CronPeriod.field(f[3], 1, 12, MON, 1)
        if min(doms) > max(29 if m == 2 else 30 if m in (4, 6, 9, 11) else 31 for m in months):
            f[2] = "*"      # (a day which never comes)
    return " ".join(f)


def gen(rng, tier):
    scope = rng.choice(["hour", "hour", "day", "month"])
    p = G.scaled(rng, scope, tier, execs=("async", "thread", "main", "process"))
    if scope == "hour":
        p["config"]["cycle_sleep"] = round(rng.uniform(14, 58), 3)
        p["horizon"] = round(rng.uniform(2.2, 3.5) * 3600, 3)
    elif scope == "day":
        p["config"]["cycle_sleep"] = round(rng.uniform(500, 1700), 3)
        p["horizon"] = round(rng.uniform(2, 5) * 86400, 3)
    if rng.random() < 0.4:
        p["config"]["timezone"] = rng.choice([0, 2, -5, 9, -11, 5.5])
    p["max_lines"] = 15_000_000
    for i in range(rng.choice([1, 1, 2])):
        ex = rng.choice(G.EXECS)
        e = expression(rng, scope)
        expr = "cron(%r)" % e
        r = rng.random()
        if r < 0.15:
            names = ("minute", "hour", "day_of_month", "month", "day_of_week")
            expr = "cron(%s)" % ", ".join("%s=%r" % (n, x) for n, x in zip(names, e.split()) if x != "*")
        elif r < 0.3:
            expr = "every('%d s') & crontime(%r)" % (rng.choice([30, 100, 1000]), e)
        elif r < 0.4:
            expr = "cron(%r) | cron(%r)" % (e, expression(rng, scope))
        t = G.task(rng, "t%d" % i, ex, [expr])
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=False,
                               durs=(0, 0.001, 5, 70))
        for b in t["script"]:
            b["dur"] = min(b["dur"], 5) if ex == "main" else b["dur"]
        p["tasks"].append(t)
    if rng.random() < 0.3:
        p["faults"].append({"kind": rng.choice(["clock_jump", "stall"]),
                            "at": round(rng.uniform(0, p["horizon"]), 3),
                            "by": round(rng.choice([20, 61, 3700, 90000]) * rng.uniform(0.5, 1), 3)})
    if rng.random() < 0.2:
        p["faults"].append({"kind": "crash", "at": round(rng.uniform(0, p["horizon"]), 3)})
        p["downtime"] = round(rng.choice([5, 70, 4000]), 3)
    G.syntax(rng, p)
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    d = Decider(h, h.plan["config"].get("timezone", 0))
    h.decider = d
    for t in h.plan["tasks"]:
        yield from d.check(t["name"])


def stats(h):
    d = getattr(h, "decider", None)
    n = dict(d.n) if d else {}
    n["nontrivial"] = bool(d and d.n["certain_true"] and d.n["certain_false"])
    return n
