"""C14 containment: a fault of one task stays there (silenced), or stops the scheduler in an orderly way (not silenced)."""
from .. import gen as G
from ..decide import Decider
from ..hist import V
from .c07 import sessions

ACTS = ("run", "success", "fail", "terminate", "inaction")


def gen(rng, tier):
    p = G.base(rng, 3, 8, tier)
    cfg = p["config"]
    r = rng.random()
    for k in ("silence_task_prerun", "silence_task_logging", "silence_cond_check"):
        cfg[k] = True if r < 0.55 else False if r < 0.75 else rng.random() < 0.5
    cfg["max_process_count"] = 8
    cfg["param_materialize"] = rng.choice(["pre", "post"])
    for i in range(rng.randint(1, 2)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "h%d" % i, ex, ["true", "every('0.5 s')", "every('1 s')", "secondly", "every('0.7 s', based='finish')"])
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise"), poll=not t.get("async"), durs=(0, 0.01, 0.3))
        t["priority"] = rng.choice([0, 0, 5])
        p["tasks"].append(t)
    for i in range(rng.randint(1, 3)):
        name = "f%d" % i
        ex = rng.choice(G.EXECS)
        t = G.task(rng, name, ex, ["true"])
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "ok", "raise", "inaction", "term"),
                               poll=not t.get("async"), durs=(0, 0.003, 0.05, 0.3, 0.9))
        t["priority"] = rng.choice([0, 0, 5])
        kinds = rng.sample(["cond", "end", "param", "hook", "log", "log", "start", "child"], rng.choice([1, 1, 2]))
        nth = lambda n: sorted(rng.sample(range(n), rng.choice([1, 1, 2, 4])))      # noqa: E731
        if "cond" in kinds:
            t["start"] = "hcond('c%d')" % i
            p["conds"]["c%d" % i] = {"raise_at": nth(12), "true": [[0, rng.choice([p["horizon"] / 2, 1e9])]]}
        if "end" in kinds:
            t["end"] = "hcond('e%d')" % i
            p["conds"]["e%d" % i] = {"raise_at": nth(12)}
        if "param" in kinds:
            mat = rng.choice([None, "pre", "post"])
            t.setdefault("args", []).append(["a", "FuncArg(param_func, key='k%d'%s)" % (
                i, ", materialize=%r" % mat if mat else "")])
            p.setdefault("pvals", {})["k%d" % i] = {"raise_at": nth(6)}
        if "hook" in kinds:
            p["hooks"] = ["execute"]
            p["faults"].append({"kind": "hook_error", "where": "execute_pre", "task": name, "n": nth(6)})
        if "log" in kinds:
            f = {"kind": "log_error", "task": name, "nth": nth(8), "mode": rng.choice(["lost", "lost", "late"])}
            if rng.random() < 0.6:
                f["action"] = rng.choice(ACTS[:3])
                f["nth"] = nth(4)
            p["faults"].append(f)
        if "start" in kinds and ex in ("thread", "process"):
            p["faults"].append({"kind": "start_error", "task": name, "n": nth(5)})
        if "child" in kinds and ex == "process":
            t["script"].append({"dur": 0.05, "die": True})
            if rng.random() < 0.3:
                p["faults"].append({"kind": "proc", "task": name, "n": rng.randint(0, 3), "die_at_start": True})
        if rng.random() < 0.2:
            t["timeout"] = 0.25
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    if rng.random() < 0.5:
        p["tasks"].append({"name": "bye", "execution": rng.choice(["main", "thread"]), "on_shutdown": True, "start": None,
                           "script": [{"dur": rng.choice([0, 0.05])}]})
    for _ in range(rng.choice([0, 0, 2])):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["run", "terminate"]), "task": rng.choice(names)})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    G.child_faults(rng, p, 0.1)
    G.clock_faults(rng, p, 0.1, back=False)
    p["grace"] = 120
    return p


def kinds(h):
    """What went wrong: (index, kind, task) of every injected fault which concerns the scheduler."""
    out = []
    for i, e in h.kind("cond_raise"):
        out.append((i, "cond", "f" + e["key"][1:], e["key"][0]))
    for i, e in h.kind("param_raise"):
        out.append((i, "prerun", "f" + e["key"][1:], e["rid"]))
    for i, e in h.kind("hook_raise"):
        out.append((i, "prerun", e["task"], e["rid"]))
    for i, e in h.kind("start_error"):
        out.append((i, "prerun", e["task"], e["rid"]))
    for k in ("log_lost", "log_late"):
        for i, e in h.kind(k):
            out.append((i, "log", e["task"], e["rid"]))
    # a process which dies before it told that it runs
    for i, e in h.kind("proc_crash"):
        out.append((i, "prerun", None, e["proc"]))
    return sorted(out, key=lambda x: x[0])


FLAG = {"cond": "silence_cond_check", "prerun": "silence_task_prerun", "log": "silence_task_logging"}
ERR = {"InjectedError": "cond", "TaskSetupError": "prerun", "TaskLoggingError": "log"}


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    ev = h.events
    cfg = h.plan["config"]
    bad = kinds(h)
    h.n = {"faults": len(bad), "stops": 0, "surfaced": 0}
    d = Decider(h)
    h.decider = d
    if h.kind("no_exit"):
        yield V("no-return", "the scheduler did not return")
        return
    raised = h.kind("sched_raise")
    for i, e in raised:
        h.n["stops"] += 1
        kind = ERR.get(e["err"])
        if kind is None:
            yield V("stop", "the scheduler ended with %s: %s" % (e["err"], e["msg"]))
        elif cfg[FLAG[kind]]:
            yield V("stop", "the scheduler ended with %s although %s is set" % (e["err"], FLAG[kind]))
        elif not any(j < i and k == kind for j, k, _, _ in bad):
            yield V("stop", "the scheduler ended with %s although no such fault occurred" % e["err"])
    # what is not silenced ends the scheduler soon
    cyc = [c.i0 for c in d.cycles]
    for i, kind, task, more in bad:
        if cfg[FLAG[kind]]:
            continue
        if kind == "prerun":
            r = h.runs.get(more)
            if r is None or task is None:
                continue
            pre = ev[i]["k"] == "start_error"
            if ev[i]["k"] == "param_raise":
                arg = [x for _, x in h.spec(task)["args"] if x.startswith("FuncArg")][0]
                mat = "pre" if "'pre'" in arg else "post" if "'post'" in arg else cfg["param_materialize"]
                pre = mat == "pre" and r.exec in ("thread", "process")
            if not pre and r.exec != "main":
                continue
            if any(k == "log" and x == more for _, k, _, x in bad):
                continue        # (its failure could not be logged either)
        h.n["surfaced"] += 1
        later = [j for j in cyc if j > i]
        n = {"cond": 0, "prerun": 0, "log": 2}[kind]
        if not raised or len(later) > n:
            yield V("not-surfaced", "%s of task %s at %.6f is not silenced but the scheduler went on (%d more cycles%s)"
                    % (ev[i]["k"], task, ev[i]["t"] / 1e6, len(later), "" if raised else ", no error"))
            break
    # ... in an orderly way
    for s0, d0, d1, ret in sessions(h):
        if d0 is None or d1 is None:
            yield V("disorder", "the scheduler ended without a complete shutdown sequence")
    for i, e in h.kind("sched_return"):
        if e["alive"]:
            yield V("disorder", "%d runs are alive after the scheduler ended" % e["alive"])
    if h.open_inv and h.kind("host_exit"):
        yield V("disorder", "the execution of %s outlives the scheduler" % h.open_inv[0].task)
    for t in h.plan["tasks"]:
        if t["name"] == "bye" and h.kind("host_exit") and not h.task_runs("bye"):
            yield V("disorder", "the shutdown task did not run")
    # the other tasks, and the same task afterwards, run as ever
    for t in h.plan["tasks"]:
        name = t["name"]
        if name[0] == "h":
            yield from d.check(name)
        elif name[0] == "f":
            key = "c" + name[1:]
            errs = [j for j, e in h.kind("cond_raise") if e["key"] == key]

            def expr(i0, end, errs=errs, key=key, t=t):
                if t["start"] == "true":
                    return "true"
                if any(i0 < j < end for j in errs):
                    return "false"
                a, b = h.plan["conds"][key]["true"][0]
                t0, t1 = ev[i0]["t"] / 1e6, ev[end]["t"] / 1e6
                return "true" if a <= t0 and t1 < b else "false" if t0 >= b else False
            yield from d.check(name, expr_of=expr)


def stats(h):
    n = dict(getattr(h, "n", {}))
    n.update(getattr(h, "decider").n if getattr(h, "decider", None) else {})
    n["nontrivial"] = n.get("faults", 0) > 0
    return n
