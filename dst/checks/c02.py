"""C02 run records: one `run` record and one matching terminal record per run."""
from .. import gen as G
from ..hist import V, OUT2ACTION, died


def gen(rng, tier):
    p = G.base(rng, 5, 14, tier)
    p["config"]["multilaunch"] = rng.random() < 0.2
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, G.STARTS)
        outs = ["ok", "ok", "raise", "inaction", "term"]
        if ex == "process":
            outs += ["unpicklable"]
        t["script"] = G.script(rng, execution=ex, outs=outs, poll=not t.get("async"))
        if rng.random() < 0.15:
            t["multilaunch"] = True
        if rng.random() < 0.25:
            t["timeout"] = rng.choice([0.2, 0.5, 1.0])
        if rng.random() < 0.15:
            p["conds"]["end%d" % i] = {"true": [sorted([G.op_time(rng, p), G.op_time(rng, p)])]}
            t["end"] = "hcond('end%d')" % i
        if rng.random() < 0.1:
            t["on_startup"] = True
        elif rng.random() < 0.1:
            t["on_shutdown"] = True
            t["start"] = rng.choice([None, "true"])
        if rng.random() < 0.15 and ex in ("thread", "process", "async"):
            t["permanent"] = True
        if rng.random() < 0.2:
            key = "v%d" % i
            t.setdefault("args", []).append(["a", "FuncArg(param_func, key=%r)" % key])
            p.setdefault("pvals", {})[key] = {"raise_at": sorted(rng.sample(range(8), rng.choice([0, 1, 2])))}
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    if rng.random() < 0.25:
        p["hooks"] = ["execute"]
        if rng.random() < 0.6:
            p["faults"].append({"kind": "hook_error", "where": "execute_pre", "task": rng.choice(names),
                                "n": sorted(rng.sample(range(6), 2))})
    for _ in range(rng.randint(0, 6)):
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["run", "run", "terminate", "terminate"]),
                         "task": rng.choice(names), "op_thread": rng.randint(0, 1)})
    if rng.random() < 0.2:
        p["tasks"].append({"name": "ender", "execution": "main", "start": "hcond('stop')",
                           "script": [{"out": rng.choice(["exit", "restart"])}]})
        p["conds"]["stop"] = {"true": [[G.op_time(rng, p), 1e9]]}
        p["config"]["restarting"] = "recall"
        p["tasks"][-1]["start"] = "hcond('stop') & ~started"
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p)
    if rng.random() < 0.4:
        G.clock_faults(rng, p)
    G.child_faults(rng, p, 0.25)
    if p["end"]["mode"] == "shut_down" and rng.random() < 0.4:
        p["end"]["force"] = True
    if rng.random() < 0.2:
        p["config"]["instant_shutdown"] = True
    p["config"]["silence_task_prerun"] = rng.random() < 0.7
    if rng.random() < 0.1:
        p["config"]["force_status_from_logs"] = True
    if rng.random() < 0.15:
        p["sessions"] = 2
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    for idx, e in h.anon:
        if e["action"] == "crash":
            continue
        yield V("no-run", "the log has a record %r of task %s at %.6f which belongs to no run"
                % (e["action"], e["task"], e["t"] / 1e6), action=e["action"])
    ended = bool(h.kind("host_exit"))
    timed = h.plan["repo"]["model"] == "TaskRunRecord"
    tol = 2000 + h.world.k.coarse
    jumps = h.kind("clock_jump")
    for r in h.runs.values():
        runs, terms = r.run_logs, r.terminals
        inv = r.invs[0] if r.invs else None
        who = "run %s of task %s (%s, started %.6f)" % (r.rid, r.task, r.exec, r.t / 1e6)
        acts = [e["action"] for _, e in r.logs]
        if len(r.invs) > 1:
            yield V("double-execution", "%s executed its function %d times" % (who, len(r.invs)))
        if len(runs) > 1:
            yield V("double-run", "%s has %d run records" % (who, len(runs)))
        if len(terms) > 1:
            yield V("double-end", "%s has the terminal records %s" % (who, [e["action"] for e in terms]),
                    exec=r.exec, acts=acts)
        if terms and not runs:
            yield V("end-without-run", "%s has %r but no run record" % (who, terms[0]["action"]), exec=r.exec)
        if runs and terms and acts.index("run") > acts.index(terms[0]["action"]):
            yield V("order", "%s has its records in the order %s" % (who, acts))
        if inv is not None and not runs and inv.died is None and ended:
            yield V("no-run-record", "%s executed without a run record" % who, exec=r.exec)
        if not ended:
            continue
        killed = r.proc_fate == "crashed"
        if not terms:
            if not killed:
                yield V("no-end", "%s has no terminal record (records %s, function %s)"
                        % (who, acts, "not executed" if inv is None else inv.out or inv.died), exec=r.exec)
            continue
        act = terms[0]["action"]
        if runs and "start" in runs[0] and timed:
            lo, hi = sorted((runs[0]["start"], runs[0]["created"]))
            e = terms[0]
            if "start" not in e or not lo - tol <= e["start"] <= hi + tol:
                yield V("wrong-start", "%s started at %s by its run record but at %s by its %s record"
                        % (who, runs[0]["start"] / 1e6, e.get("start", 0) / 1e6, act), exec=r.exec)
            elif "end" not in e or "runtime" not in e or abs(e["end"] - e["start"] - e["runtime"]) > tol:
                yield V("wrong-runtime", "%s has start %s, end %s, runtime %s in its %s record"
                        % (who, e["start"], e.get("end"), e.get("runtime"), act), exec=r.exec)
            elif not jumps and not (inv.t1 if inv and inv.t1 else r.t) - r.t + r.w - tol <= e["end"] <= e["created"] + tol:
                yield V("wrong-runtime", "%s has the end %s in its %s record created at %s"
                        % (who, e["end"], act, e["created"]), exec=r.exec)
        if inv is None:
            if act not in ("fail", "terminate"):
                yield V("wrong-end", "%s never executed its function but is recorded as %r" % (who, act), exec=r.exec)
        elif inv.out is not None:
            want = {OUT2ACTION.get(inv.out, "fail")}
            if inv.out == "unpicklable":
                want = {"fail"}
            if r.proc_fate == "terminated":
                want.add("terminate")      # the process was killed before its record got out
            if act not in want:
                yield V("wrong-end", "%s ended with %r but is recorded as %r" % (who, inv.out, act), exec=r.exec,
                        out=inv.out)
        elif inv.died == "terminated" and act != "terminate":
            yield V("wrong-end", "%s was terminated but is recorded as %r" % (who, act), exec=r.exec)


def stats(h):
    return {"runs": len(h.runs), "terminals": sum(len(r.terminals) for r in h.runs.values()),
            "nontrivial": len(h.runs) >= 2}
