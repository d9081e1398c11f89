"""C16 retries: retry(n) restarts a failed task at most n times in a row, and exactly then."""
from .. import gen as G
from ..decide import Decider
from ..hist import V, died


def gen(rng, tier):
    p = G.base(rng, 5, 12, tier)
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS)
        n = rng.choice([0, 1, 2, 3, 5])
        other = rng.choice(["every('2 s')", "every('3 s')", "every('5 s', based='finish')", "false", "secondly",
                            "hcond('go%d')" % i])
        p["conds"]["go%d" % i] = {"true": [[a, a + 0.15] for a in sorted(G.op_time(rng, p) for _ in range(2))]}
        r = rng.random()
        expr = "retry(%d) | %s" % (n, other)
        if r < 0.1:
            expr = "retry | %s" % other
        elif r < 0.2:
            expr = "(retry(%d) & every('500 ms')) | %s" % (n, other)
        elif r < 0.3:
            expr = "%s | retry(%d)" % (other, n)
        t = G.task(rng, "t%d" % i, ex, [expr])
        outs = rng.choice([("raise", "raise", "raise", "ok"), ("raise",), ("raise", "ok", "inaction", "term"),
                           ("raise", "raise", "term"), ("ok", "raise")])
        t["script"] = G.script(rng, n=rng.randint(1, 7), execution=ex, outs=outs, poll=False,
                               durs=(0, 0.003, 0.05, 0.3))
        if rng.random() < 0.15:
            t["timeout"] = 0.2
        p["tasks"].append(t)
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["run", "terminate"]),
                             "task": rng.choice(p["tasks"])["name"]})
        p["ops"].sort(key=lambda o: o["at"])
        G.aim(rng, p)
    G.clock_faults(rng, p, 0.15, back=False)
    if rng.random() < 0.25:
        p["faults"].append({"kind": "crash", "at": G.op_time(rng, p)})
        p["downtime"] = rng.choice([0.01, 0.6])
    G.child_faults(rng, p, 0.1)
    if rng.random() < 0.2:
        p["config"]["force_status_from_logs"] = True
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    d = Decider(h)
    h.decider = d
    for t in h.plan["tasks"]:
        yield from d.check(t["name"])


def stats(h):
    d = getattr(h, "decider", None)
    n = dict(d.n) if d else {}
    n["failures"] = sum(1 for _, e in h.logs if e["action"] == "fail")
    n["nontrivial"] = n["failures"] >= 2
    return n
