"""C12 pipelines: a dependent task starts when, and only when, what it waits for has happened since its last start."""
from .. import gen as G
from ..decide import Decider
from ..hist import died

OUTS = {"success": ("ok", "ok", "ok", "raise"), "fail": ("raise", "raise", "ok"), "finish": ("ok", "raise", "inaction",
                                                                                            "term")}


def dep(rng, names):
    kind = rng.choice(["success", "success", "fail", "finish"])
    if len(names) > 1 and rng.random() < 0.45:
        ns = rng.sample(names, rng.randint(2, min(3, len(names))))
        return "after_%s_%s(%s)" % (rng.choice(["all", "any"]), kind, ", ".join(map(repr, ns)))
    return "after_%s(%r)" % (kind, rng.choice(names))


def gen(rng, tier):
    p = G.base(rng, 5, 12, tier)
    p["t0"] = round(rng.choice(G.T0S) + rng.uniform(0, 3600), 6)
    n = rng.randint(2, 5)
    roots = rng.randint(1, max(1, n - 2)) if n > 2 else 1
    for i in range(n):
        ex = rng.choice(G.EXECS)
        names = [t["name"] for t in p["tasks"]]
        if i < roots:
            expr = rng.choice(["every('0.5 s')", "every('1 s')", "every('1.7 s', based='finish')", "secondly", "true",
                               "every('900 ms')", "every('20 s')"])
        else:
            expr = dep(rng, names)
            r = rng.random()
            if r < 0.15:
                expr = "%s & %s" % (expr, dep(rng, names))
            elif r < 0.3:
                expr = "%s | %s" % (expr, dep(rng, names))
            elif r < 0.4:
                expr = "%s & every('700 ms')" % expr
            elif r < 0.45:
                expr = "%s & ~%s" % (expr, dep(rng, names))
            elif r < 0.55:
                expr = "%s & ~running(%r)" % (expr, rng.choice(names))
        t = G.task(rng, "t%d" % i, ex, [expr])
        t["script"] = G.script(rng, execution=ex, outs=OUTS[rng.choice(sorted(OUTS))], poll=False,
                               durs=(0, 0.003, 0.05, 0.3, 0.8))
        if rng.random() < 0.1:
            t["multilaunch"] = True
        if rng.random() < 0.1:
            t["timeout"] = 0.4
        p["tasks"].append(t)
    if rng.random() < 0.3:
        # a cycle of tasks
        a = p["tasks"][0]
        a["start"] = "(%s) | after_success(%r)" % (a["start"], p["tasks"][-1]["name"])
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 3)):
            p["ops"].append({"at": G.op_time(rng, p), "op": "run", "task": rng.choice(p["tasks"])["name"]})
        p["ops"].sort(key=lambda o: o["at"])
        G.aim(rng, p)
    G.clock_faults(rng, p, 0.15, back=False)
    if rng.random() < 0.2:
        p["faults"].append({"kind": "crash", "at": G.op_time(rng, p)})
        p["downtime"] = rng.choice([0.01, 0.6])
    G.child_faults(rng, p, 0.1)
    if rng.random() < 0.15:
        p["config"]["force_status_from_logs"] = True
    G.syntax(rng, p)
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    d = Decider(h)
    h.decider = d
    for t in h.plan["tasks"]:
        yield from d.check(t["name"])


def stats(h):
    d = getattr(h, "decider", None)
    n = dict(d.n) if d else {}
    deps = {t["name"] for t in h.plan["tasks"] if "after_" in t["start"]}
    n["dependent_runs"] = sum(1 for r in h.runs.values() if r.task in deps)
    n["nontrivial"] = bool(n["dependent_runs"])
    return n
