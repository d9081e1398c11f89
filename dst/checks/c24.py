"""C24 groups: tasks of a Grouper live in the app: both conditions, the group's execution and parameters, the app's settings."""
from .. import gen as G
from ..decide import Decider
from ..hist import V, died
from . import c01, c02, c06

GROUP = ("every('0.5 s')", "every('1 s')", "hcond('g%d')", "hcond('g%d')", "~hcond('g%d')", "secondly", "true",
         "hcond('g%d') | every('2 s')", "~running('%s')", "after_success('%s')", "scheduler_cycles(more_than=20)")
OWN = G.STARTS + ("hcond('h')", "every('0.3 s') | hcond('h')", "~hcond('h')", "after_finish('%s')", "after_success('%s')",
                  "true", "every('0.3 s')")


def gen(rng, tier):
    p = G.base(rng, 4, 10, tier)
    cfg = p["config"]
    cfg["multilaunch"] = rng.random() < 0.3
    cfg["max_process_count"] = 99
    p["global_timeout"] = 1800.0
    if rng.random() < 0.3:
        cfg["timeout"] = p["global_timeout"] = rng.choice([0.3, 0.8])
    p["conds"]["h"] = {"true": [sorted([G.op_time(rng, p), G.op_time(rng, p)])]}
    n = rng.randint(2, 5)
    groups = p["groups"] = {}
    names = []
    for j in range(rng.choice([1, 1, 2])):
        p["conds"]["g%d" % j] = {"true": [sorted([G.op_time(rng, p), G.op_time(rng, p)])]}
        groups["g%d" % j] = {"prefix": rng.choice([None, "g%d." % j, "grp%d/" % j]),
                             "execution": rng.choice([None, None] + list(G.EXECS)),
                             "params": {"gp%d" % j: "group%d" % j} if rng.random() < 0.5 else None}
    where = [rng.choice([None] + sorted(groups) * 2) for _ in range(n)]
    for i in range(n):
        pre = groups[where[i]]["prefix"] if where[i] else None
        names.append((pre or "") + "t%d" % i)
    for j, key in enumerate(sorted(groups)):
        s = rng.choice((None,) + GROUP)
        if s and "%d" in s:
            s = s % j
        elif s and "%s" in s:
            s = s % rng.choice(names)
        groups[key]["start"] = s
    for i in range(n):
        ex = rng.choice((None, None) + G.EXECS)
        t = {"name": names[i], "group": where[i], "execution": ex}
        eff = G.exec_of(p, t)
        own = rng.choice(OWN)
        if "%s" in own:
            own = own % rng.choice(names)
        t = G.task(rng, names[i], eff, [own])
        if ex is None:
            t.pop("execution")
        if where[i]:
            g = groups[where[i]]
            t["group"] = where[i]
            t["own_start"] = own
            t["start"] = "(%s) & (%s)" % (own, g["start"]) if g["start"] else own
        t["script"] = G.script(rng, execution=eff, outs=("ok", "ok", "ok", "raise", "inaction"), poll=not t.get("async"),
                               durs=(0, 0.01, 0.1, 0.35, 0.9, 1.6))
        for key, g in groups.items():
            for a in g["params"] or ():
                if rng.random() < 0.5:
                    t.setdefault("args", []).append([a, "'none'"])
        if rng.random() < 0.15:
            t["multilaunch"] = rng.random() < 0.5
        if rng.random() < 0.15:
            t["timeout"] = t["limit"] = 0.4
        p["tasks"].append(t)
    for _ in range(rng.choice([0, 0, 1, 3])):
        p["ops"].append({"at": G.op_time(rng, p), "op": "run", "task": rng.choice(names)})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    G.clock_faults(rng, p, 0.1, back=False)
    if rng.random() < 0.15:
        p["faults"].append({"kind": "crash", "at": G.op_time(rng, p)})
        p["downtime"] = rng.choice([0.01, 0.6])
    if rng.random() < 0.15:
        cfg["force_status_from_logs"] = True
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    p = h.plan
    for r in h.runs.values():
        t = next((t for t in p["tasks"] if t["name"] == r.task), None)
        if t is None:
            yield V("name", "a task %r started; there is no such one" % r.task)
            continue
        want = G.exec_of(p, t)
        if r.exec != want:
            yield V("execution", "run %s of task %s has the execution %s instead of %s" % (r.rid, r.task, r.exec, want))
        for v in r.invs:
            if bool(v.proc) != (want == "process"):
                yield V("execution", "run %s of task %s with execution %s was executed in %s"
                        % (r.rid, r.task, want, v.proc or "the host"))
            for key, g in p["groups"].items():
                for a, val in (g["params"] or {}).items():
                    if a in v.params and v.params[a] != val:
                        yield V("parameter", "run %s of task %s got %s=%r instead of %r" % (r.rid, r.task, a, v.params[a], val))
    d = Decider(h)
    h.decider = d
    for t in p["tasks"]:
        yield from d.check(t["name"])
    for c in (c01,) if h.kind("crash") else (c01, c02, c06):
        yield from c.oracle(h)


def stats(h):
    d = getattr(h, "decider", None)
    n = dict(d.n) if d else {}
    grouped = {t["name"] for t in h.plan["tasks"] if t.get("group")}
    n["grouped_runs"] = sum(1 for r in h.runs.values() if r.task in grouped)
    n["nontrivial"] = n["grouped_runs"] > 0
    return n
