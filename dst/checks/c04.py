"""C04 requested runs: every task.run() leads to exactly one run, in order, with its own parameters, and none is forgotten."""
from .. import gen as G
from ..decide import Decider
from ..hist import V


def gen(rng, tier):
    p = G.base(rng, 5, 12, tier)
    p["show_x"] = True
    p["config"]["multilaunch"] = rng.random() < 0.3
    p["config"]["max_process_count"] = rng.choice([1, 2, 4])
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, ["false", "false", "false", "every('1.5 s')", None, "true"])
        t.setdefault("args", []).append(["x", "'none'"])
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=not t.get("async"),
                               durs=(0, 0.003, 0.05, 0.3, 0.8))
        if rng.random() < 0.2:
            t["multilaunch"] = rng.random() < 0.5
        if rng.random() < 0.25:
            t["disabled"] = True
        if rng.random() < 0.15:
            t["timeout"] = 0.25
        if rng.random() < 0.15:
            key = "v%d" % i
            t["args"].append(["a", "FuncArg(param_func, key=%r)" % key])
            p.setdefault("pvals", {})[key] = {"raise_at": sorted(rng.sample(range(6), 2))}
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    n = 0
    for _ in range(rng.randint(1, 9)):
        at = G.op_time(rng, p) * rng.choice([1, 1, 0.3])
        name = rng.choice(names)
        th = rng.randint(0, 2)
        for j in range(rng.choice([1, 1, 2, 3, 6])):
            op = {"at": round(at + j * rng.choice([0, 0, 0.0005, 0.05]), 4), "op": "run", "task": name, "op_thread": th}
            if rng.random() < 0.9:
                op["params"] = {"x": "b%d" % n}
                if rng.random() < 0.2:
                    op["as_dict"] = True
            n += 1
            p["ops"].append(op)
    for _ in range(rng.choice([0, 0, 1, 3])):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["terminate", "disable", "enable", "enable"]),
                         "task": rng.choice(names), "op_thread": 3})
    if rng.random() < 0.2:
        a, b = sorted([G.op_time(rng, p), G.op_time(rng, p)])
        p["ops"] += [{"at": a, "op": "hold", "op_thread": 3}, {"at": b, "op": "resume", "op_thread": 3}]
    if rng.random() < 0.3:
        # tasks which set others (or themselves) running
        for t in p["tasks"]:
            if G.exec_of(p, t) != "process":
                for b in t["script"][:2]:
                    b["ops_" + rng.choice(["before", "after"])] = [
                        {"op": "run", "task": rng.choice([x for x in names if x != t["name"]] or ["t0"]),
                         "params": {"x": "@"}}]
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p)
    G.clock_faults(rng, p, 0.2)
    G.child_faults(rng, p, 0.2)
    p["config"]["silence_task_prerun"] = True
    if rng.random() < 0.2:
        p["sessions"] = 2
        p["end"] = {"mode": "shut_down"}
        p["session_len"] = 4.0
    return p


def oracle(h):
    if h.aborted in ("lines", "switches") or h.kind("sched_raise"):
        return
    d = Decider(h)
    h.decider = d
    asked = {}
    finals = h.kind("final")
    last = finals[-1][0] if finals else 1 << 60
    snap = max((i for i, _ in h.kind("snap") if i < last), default=last)
    done = {e["n"]: (i, e) for i, e in h.kind("op_done")}
    for idx, e in h.kind("op"):
        if e["name"] != "run" or idx > last:
            continue            # (asked after the scheduler returned)
        i1, e1 = done.get(e["n"], (1 << 60, {"err": None}))
        if e1["err"]:
            continue
        x = (e.get("params") or {}).get("x", "none")
        asked.setdefault(e["task"], []).append((idx, i1, x))
    h.asked = sum(map(len, asked.values()))
    final = finals[-1][1]["state"] if finals else None
    for name, reqs in asked.items():
        spec = h.spec(name)
        runs = sorted(h.task_runs(name), key=lambda r: r.idx)
        cond = spec.get("start")
        values = {}
        for idx, i1, x in reqs:
            values.setdefault(x, []).append((idx, i1))
        seen = {}
        for r in runs:
            seen.setdefault(r.x or "none", []).append(r)
        for x, rs in seen.items():
            if x == "none":
                continue
            want = len(values.get(x, ()))
            if len(rs) > want:
                yield V("run-twice", "task %s ran %d times with the parameters %r, which were given to task.run() %d "
                        "times" % (name, len(rs), x, want), task=name)
                return
            if rs[0].idx < values[x][0][0]:
                yield V("run-early", "task %s ran with %r before it was asked to" % (name, x), task=name)
        for r in runs:
            for inv in r.invs:
                if inv.params.get("x") != (r.x or "none"):
                    yield V("wrong-params", "run %s of task %s was made for the request %r but its function got %r"
                            % (r.rid, name, r.x, inv.params.get("x")), task=name)
        # order
        firsts = [(values[x], rs[0]) for x, rs in seen.items()
                  if x != "none" and x in values and len(values[x]) == 1 and len(rs) == 1]
        for va, ra in firsts:
            for vb, rb in firsts:
                if va[0][1] < vb[0][0] and ra.idx > rb.idx:
                    yield V("order", "task %s was asked to run with %r before %r but ran in the other order"
                            % (name, ra.x, rb.x), task=name)
                    return
        # nothing is lost (conservation); only runs with nothing to run for may be added
        never = cond in ("false", None) or _disabled(d, h, name)
        pending = final[name].get("batches") if final and name in final else None
        if h.kind("host_exit") and pending is not None:
            flying = sum(1 for idx, i1, x in reqs if i1 > snap)     # (being asked when the scheduler returned)
            if never and not len(reqs) - flying <= len(runs) + pending <= len(reqs):
                yield V("lost" if len(runs) + pending < len(reqs) else "extra",
                        "task %s was asked to run %d times, ran %d times and has %d requests pending at the end"
                        % (name, len(reqs), len(runs), pending), task=name)
            missing = [x for x in values if x != "none" and x not in seen and values[x][-1][1] < snap]
            if len(missing) > pending:
                yield V("lost", "task %s never ran with %s although only %d requests are pending at the end"
                        % (name, missing, pending), task=name)
        # progress
        multi = spec.get("multilaunch")
        if multi is None:
            multi = h.plan["config"].get("multilaunch", False)
        ex = spec.get("execution") or h.plan["config"]["execution"]
        for c in d.cycles:
            if c.i1 is None:
                continue
            ndone = sum(1 for idx, i1, x in reqs if i1 < c.i0)
            nrun = sum(1 for r in runs if r.idx < c.i0)
            used = nrun if never else sum(1 for r in runs if r.idx < c.i0 and (r.x or "none") != "none") + \
                len(values.get("none", ()))
            if ndone <= used:
                continue
            if any(c.i0 < r.idx < c.i1 for r in runs):
                continue
            if d.switch(None, c.i0, c.i1, "hold", "resume") is not False:
                continue
            if d.alive(name, c.i0, c.i1)[1] and not multi:
                continue
            if ex == "process":
                n = sum(d.alive(o, c.i0, c.i1)[1] for o in h.world.specs
                        if (h.spec(o).get("execution") or h.plan["config"]["execution"]) == "process")
                if n >= h.plan["config"].get("max_process_count", 4):
                    continue
            yield V("not-started", "task %s has %d requested runs pending but did not start in the cycle at %.6f"
                    % (name, ndone - used, c.t0 / 1e6), task=name)
            break
    for t in h.plan["tasks"]:
        if t["name"] not in asked and t["start"] in ("false", None) and h.task_runs(t["name"]):
            yield V("extra", "task %s ran although nothing asked it to" % t["name"], task=t["name"])


def _disabled(d, h, name):
    return d.switch(name, 0, len(h.events), "disable", "enable", bool(h.spec(name).get("disabled"))) is True and \
        not any(e["name"] in ("disable", "enable") for _, _, e in d.ops.get(name, ()))


def stats(h):
    return {"requests": getattr(h, "asked", 0), "runs": len(h.runs), "nontrivial": getattr(h, "asked", 0) >= 2}
