"""C17 runtime changes: disabling, enabling, new conditions, holding, adding and removing tasks take effect in the next cycle."""
from .. import gen as G
from ..decide import Decider
from ..hist import V

CONDS = ("true", "false", "every('0.4 s')", "every('1 s')", "secondly", "every('1 s') & ~running", "hcond('a')",
         "time_of_second.between(0, 500)")


def gen(rng, tier):
    p = G.base(rng, 5, 12, tier)
    p["t0"] = round(rng.choice(G.T0S) + rng.uniform(0, 3600), 6)
    p["conds"]["a"] = {"true": [sorted([G.op_time(rng, p), G.op_time(rng, p)])]}
    for i in range(rng.randint(1, 3)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, CONDS)
        t["script"] = G.script(rng, execution=ex, poll=False, durs=(0, 0.003, 0.05, 0.4))
        if rng.random() < 0.2:
            t["disabled"] = True
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    th = 0
    for name in names:
        # one thread per task: its changes are in order
        k = rng.choice([0, 2, 4, 8])
        ats = sorted(G.op_time(rng, p) for _ in range(k))
        for at in ats:
            kind = rng.choice(["disable", "enable", "disable", "enable", "set_cond", "set_cond", "priority", "timeout"])
            op = {"at": at, "op": kind, "task": name, "op_thread": th}
            if kind == "set_cond":
                op["cond"] = rng.choice(CONDS)
                op["syntax"] = rng.random() < 0.2
            elif kind == "priority":
                op["value"] = rng.randint(-2, 2)
            elif kind == "timeout":
                op["value"] = rng.choice([50, 100, None])
            p["ops"].append(op)
        th += 1
    if rng.random() < 0.4:
        ats = sorted(G.op_time(rng, p) for _ in range(4))
        for j, at in enumerate(ats):
            p["ops"].append({"at": at, "op": "resume" if j % 2 else "hold", "op_thread": 8})
    if rng.random() < 0.5:
        for j in range(rng.randint(1, 3)):
            ex = rng.choice(G.EXECS)
            t = G.task(rng, "n%d" % j, ex, CONDS)
            t["script"] = G.script(rng, execution=ex, poll=False, durs=(0, 0.003, 0.05))
            at = G.op_time(rng, p)
            p["ops"].append({"at": at, "op": "add_task", "spec": t, "op_thread": 10 + j})
            if rng.random() < 0.4:
                p["ops"].append({"at": round(min(p["horizon"], at + rng.uniform(0.2, 3)), 4), "op": "remove_task",
                                 "task": t["name"], "op_thread": 10 + j})
    if rng.random() < 0.4:
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["remove_task", "delete_task"]),
                         "task": rng.choice(names), "op_thread": 9})
    for _ in range(rng.choice([0, 0, 3])):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["list", "contains"]), "task": rng.choice(names),
                         "op_thread": 9})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.7)
    G.clock_faults(rng, p, 0.1, back=False)
    if rng.random() < 0.15:
        p["config"]["force_status_from_logs"] = True
    G.syntax(rng, p)
    return p


def expr_of(h, d, task):
    changes = [(i0, i1, e["cond"]) for i0, i1, e in d.ops.get(task, ()) if e["name"] == "set_cond"]
    first = h.spec(task).get("start")

    def f(a, b):
        cur = first
        for i0, i1, cond in changes:
            if i0 > b:
                break
            if i1 < a:
                cur = cond
            else:
                return False
        return cur
    return f


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    for _, e in h.kind("sched_raise"):
        yield V("scheduler-died", "the scheduler ended with %s: %s" % (e["err"], e["msg"]), err=e["err"])
        return
    for _, e in h.kind("op_done"):
        if e["err"] and not e["err"].startswith("KeyError"):
            yield V("operation-failed", "an operation on the session failed with %s" % e["err"])
    d = Decider(h)
    h.decider = d
    for name in list(h.world.specs):
        yield from d.check(name, expr_of(h, d, name))


def stats(h):
    d = getattr(h, "decider", None)
    n = dict(d.n) if d else {}
    n["changes"] = len(h.kind("op"))
    n["nontrivial"] = n["changes"] > 1 and len(h.runs) > 1
    return n
