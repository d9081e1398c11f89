"""C18 manual runs: session.run() runs the given tasks once, nothing else, and leaves everything as it was."""
from .. import gen as G
from ..decide import Decider
from ..hist import V


def gen(rng, tier):
    p = G.base(rng, 1.0, 2.5, tier)
    p["show_attrs"] = True
    p["config"]["multilaunch"] = rng.random() < 0.2
    p["config"]["max_process_count"] = 16
    p["config"]["silence_task_prerun"] = True
    conds = ["false", "false", None, "true", "every('0.4 s')", "every('10 min')", "~started", "succeeded", "succeeded('t0')",
             "hcond('go')", "every('1 s') & ~started('t1')"]
    p["conds"]["go"] = {"true": [[rng.uniform(0, 1), rng.uniform(1, 4)]]}
    for i in range(rng.randint(2, 5)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, conds)
        t.pop("args", None)
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=False,
                               durs=(0, 0.003, 0.05, 0.4, 1.5))
        r = rng.random()
        if r < 0.1:
            t["on_startup"] = True
        elif r < 0.2:
            t["on_shutdown"] = True
        elif r < 0.35:
            t["disabled"] = True
        if rng.random() < 0.3:
            t["priority"] = rng.choice([-1, 4])
        if rng.random() < 0.15:
            t["timeout"] = rng.choice([0.3, "1 hour"])
        if rng.random() < 0.15:
            t["multilaunch"] = rng.random() < 0.5
        if rng.random() < 0.15:
            t.setdefault("args", []).append(["a", "FuncArg(param_func, key='v%d')" % i])
            p.setdefault("pvals", {})["v%d" % i] = {"raise_at": sorted(rng.sample(range(4), 1))}
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    plain = [t["name"] for t in p["tasks"] if not t.get("on_startup") and not t.get("on_shutdown")] or names[:1]
    entries = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.35:
            entries.append(rng.choice(["run", "serve"]))
            continue
        e = {"tasks": rng.sample(plain, rng.randint(1, min(3, len(plain)))), "kw": {}, "as": rng.choice(["name", "name", "func", "task"])}
        if rng.random() < 0.4:
            e["kw"]["execution"] = rng.choice(G.EXECS)
        if rng.random() < 0.3:
            e["kw"]["obey_cond"] = rng.random() < 0.8
        if rng.random() < 0.05:
            e["tasks"].append("nobody")
            e["as"] = "name"
        entries.append(e)
    if not any(isinstance(e, dict) for e in entries):
        entries[0] = {"tasks": plain[:1], "kw": {}}
    p["entries"] = entries
    p["sessions"] = len(entries)
    p["session_len"] = 1.3
    p["session_gap"] = rng.choice([0, 0.2, 1])
    p["end"] = {"mode": "shut_down"}
    if rng.random() < 0.5:
        p["end"]["never"] = rng.choice(["hcond('never')", "succeeded(task='t0') & false", "false"])
    if rng.random() < 0.3:
        p["config"]["instant_shutdown"] = True
    if rng.random() < 0.25:         # a task which makes tasks or asks others to run
        t = rng.choice(p["tasks"])
        if G.exec_of(p, t) != "process" and not any(isinstance(e, dict) and e["kw"].get("execution") == "process" for e in entries):
            t["script"][0]["ops_before"] = [
                {"op": "add_task", "spec": {"name": "extra", "start": "false", "execution": "main", "script": [{}]}}]
    r = rng.random()
    if r < 0.1:
        p["conds"]["bad"] = {"raise_at": [rng.randint(0, 6)]}
        p["tasks"].append({"name": "bad", "execution": "main", "start": "hcond('bad')", "script": [{}]})
        p["config"]["silence_cond_check"] = rng.random() < 0.3
    elif r < 0.2:
        p["faults"].append({"kind": "crash", "at": round(rng.uniform(0, 3), 3)})
        p["downtime"] = 0.3
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        p["ops"].append({"at": round(rng.uniform(0, 3), 4), "op": "run", "task": rng.choice(names), "op_thread": 0})
    if rng.random() < 0.15:
        p["ops"].append({"at": round(rng.uniform(0, 3), 4), "op": "shut_down", "op_thread": 1})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.2)
    G.child_faults(rng, p, 0.1)
    G.clock_faults(rng, p, 0.1, back=False)
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    ev = h.events
    h.n = {"manual": 0, "named": 0, "others": 0}
    d = Decider(h)
    h.decider = d
    rets = [i for i, _ in h.kind("sched_return")]
    crashes = [i for i, _ in h.kind("crash")]
    attrs = h.kind("attrs")
    done = {e["n"]: i for i, e in h.kind("op_done")}
    asked = [(i, e["task"]) for i, e in h.kind("op") if e["name"] == "run"]
    spans = []
    for s0, e in h.kind("sched_start"):
        ret = next((i for i in rets if i > s0), None)
        if ret is None or any(s0 < c < ret for c in crashes):
            if e.get("entry"):
                spans.append((s0, next((c for c in crashes if c > s0), len(ev)), e["entry"]))
            continue
        before = next((x for i, x in attrs if i > s0), None)
        after = next((x for i, x in attrs if i > ret), None)
        if before is not None and after is not None:
            for name, a in before["attrs"].items():
                b = after["attrs"].get(name)
                if a != b:
                    yield V("changed", "%s was %s before and is %s after session.run(%s)" % (
                        "task " + name if name else "the configuration",
                        {k: v for k, v in a.items() if not b or b[k] != v},
                        None if b is None else {k: v for k, v in b.items() if a[k] != v}, e.get("entry")))
        entry = e.get("entry")
        if not entry:
            continue
        spans.append((s0, ret, entry))
        h.n["manual"] += 1
        failed = ev[ret]["err"]
        bad = [x for i, x in h.kind("cond_raise") if s0 < i < ret]
        if failed and not bad:
            yield V("raised", "session.run(%s) raised %s" % (entry, failed))
        kw = entry["kw"]
        early = any(i < ret and done.get(x["n"], 1 << 60) > s0 for i, x in h.kind("op") if x["name"] == "shut_down")
        for t in h.plan["tasks"]:
            name = t["name"]
            runs = [r for r in h.task_runs(name) if s0 < r.idx < ret]
            if name in entry["tasks"]:
                h.n["named"] += 1
                if not kw.get("obey_cond"):
                    if len(runs) != 1 and not (not runs and (early or bad)):
                        yield V("not-once", "session.run(%s): task %s ran %d times" % (entry, name, len(runs)), task=name)
                elif len(runs) > 1:
                    yield V("not-once", "session.run(%s): task %s ran %d times" % (entry, name, len(runs)), task=name)
                for r in runs:
                    want = kw.get("execution") or G.exec_of(h.plan, t)
                    if r.exec != want:
                        yield V("execution", "session.run(%s): task %s ran as %s" % (entry, name, r.exec), task=name)
                    if not [x for i, x in r.logs if x["action"] != "run" and i < ret] and \
                            not any(f["kind"] == "kill_child" for f in h.plan["faults"]):
                        yield V("no-record", "session.run(%s) returned before the finish of task %s was logged"
                                % (entry, name), task=name)
            else:
                h.n["others"] += 1
                # (what could not be served earlier may be served now)
                left = any(name in x["tasks"] and s1 < s0 and not any(a < r.idx < s1 for r in h.task_runs(name))
                           for a, s1, x in spans)
                if runs and not left and not any(i < runs[0].idx and x == name for i, x in asked):
                    yield V("other", "session.run(%s) ran task %s" % (entry, name), task=name)
        if ev[ret]["alive"]:
            yield V("alive", "%d executions were alive when session.run() returned" % ev[ret]["alive"])
        pre = [x["phase"] for i, x in h.kind("hook_startup") + h.kind("hook_shutdown") if s0 < i < ret]
        if not failed and sorted(pre) != ["post", "post", "pre", "pre"]:
            yield V("phases", "session.run(%s) went through the startup and shutdown hooks %s" % (entry, pre))
    if any(e.get("err") and not e.get("entry") for i, e in h.kind("sched_return")):
        pass
    # everything before and after goes on by its condition
    for t in h.plan["tasks"]:
        if t.get("on_startup") or t.get("on_shutdown") or t["start"] is None or t["start"] == "hcond('bad')":
            continue

        def expr_of(a, b, t=t):
            for s0, s1, entry in spans:
                if s0 < a < s1:
                    return t["start"] if t["name"] in entry["tasks"] and entry["kw"].get("obey_cond") else False
            return t["start"]
        yield from (v for v in d.check(t["name"], expr_of)
                    if not any(asked_ for asked_ in spans if t["name"] in asked_[2]["tasks"] and v["rule"] in ("spurious-start", "disabled-start")
                               and not asked_[2]["kw"].get("obey_cond") and _pending(h, t["name"])))


def _pending(h, name):
    """A request of session.run() may have been left over (shut down or failed before it was served)."""
    return any(e["name"] == "shut_down" and e["by"] != "ender" for i, e in h.kind("op")) or bool(h.kind("cond_raise"))


def stats(h):
    n = dict(getattr(h, "n", {}))
    if getattr(h, "decider", None):
        n.update(h.decider.n)
    n["nontrivial"] = n.get("manual", 0) > 0 and n.get("named", 0) > 0
    return n
