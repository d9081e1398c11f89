"""C08 startup and shutdown tasks run once in their phase and never else; tasks are taken in the order of priority."""
from .. import gen as G
from ..decide import Cycle, Decider
from ..hist import V, died
from .c07 import sessions


def gen(rng, tier):
    p = G.base(rng, 1.5, 4, tier)
    p["config"]["restarting"] = "recall"
    p["config"]["silence_task_prerun"] = True
    p["config"]["multilaunch"] = rng.random() < 0.2
    p["config"]["max_process_count"] = rng.choice([1, 2, 8, 8, 8])
    for i in range(rng.randint(2, 6)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, ["true", "every('0.4 s')", "every('1 s')", "hcond('go%d')" % i])
        p["conds"]["go%d" % i] = {"true": [[rng.choice([0, 0.5, p["horizon"] - 0.7]),
                                            rng.choice([0.4, p["horizon"] - 0.4, 1e9])]]}
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=not t.get("async"),
                               durs=(0, 0.003, 0.05, 0.35, 1.2))
        r = rng.random()
        if r < 0.3:
            t["on_startup"] = True
        elif r < 0.6:
            t["on_shutdown"] = True
        elif r < 0.7:
            t["on_startup"] = t["on_shutdown"] = True
        if r < 0.7:
            t["start"] = rng.choice([None, None, None, "true", "hcond('go%d')" % i, "~started", "succeeded"])
        if rng.random() < 0.7:
            t["priority"] = rng.choice([-3, 0, 0, 1, 1, 5, 10])
        if rng.random() < 0.12:
            t["disabled"] = True
        if rng.random() < 0.1:
            key = "v%d" % i
            t.setdefault("args", []).append(["a", "FuncArg(param_func, key=%r)" % key])
            p.setdefault("pvals", {})[key] = {"raise_at": [0, 2]}
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        kind = rng.choice(["priority", "priority", "run", "disable", "enable"])
        op = {"at": rng.choice([0.0001, G.op_time(rng, p)]), "op": kind, "task": rng.choice(names),
              "op_thread": rng.randint(0, 1)}
        if kind == "priority":
            op["value"] = rng.choice([-7, 0, 2, 7, 20])
        p["ops"].append(op)
    h = p["horizon"]
    r = rng.random()
    if r < 0.2:
        p["end"] = {"mode": "shut_down", "force": True}
    elif r < 0.3:
        p["config"]["instant_shutdown"] = True
    if rng.random() < 0.2:
        p["ops"].append({"at": round(rng.uniform(0.2, h), 4), "op": "restart", "op_thread": 3})
    r = rng.random()
    if r < 0.1:
        p["conds"]["bad"] = {"raise_at": [rng.randint(0, 12)]}
        p["tasks"].append({"name": "bad", "execution": "main", "start": "hcond('bad')", "script": [{}]})
    elif r < 0.3:
        p["tasks"].append({"name": "ender", "execution": "main", "script": [{"out": rng.choice(["exit", "restart"])}],
                           "start": "hcond('stop') & ~started"})
        p["conds"]["stop"] = {"true": [[round(rng.uniform(0, h), 3), 1e9]]}
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    G.child_faults(rng, p, 0.1)
    G.clock_faults(rng, p, 0.1, back=False)
    if rng.random() < 0.25:
        p["sessions"] = 2
        if p["end"]["mode"] == "shut_cond":
            p["end"] = {"mode": "shut_down"}
    elif rng.random() < 0.2:
        p["faults"].append({"kind": "crash", "at": round(rng.uniform(0, h), 3)})
        p["downtime"] = 0.3
    return p


def phase(ev, i0, i1, boot):
    c = Cycle(0, i0, {"t": ev[i0]["t"], "w": ev[i0]["w"], "boot": boot})
    c.i1, c.t1, c.w1 = i1, ev[i1]["t"], ev[i1]["w"]
    return c


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    ev = h.events
    d = Decider(h)
    h.n = {"startup_runs": 0, "shutdown_runs": 0, "ordered": 0}
    runs = sorted(h.runs.values(), key=lambda r: r.idx)
    raised = bool(h.kind("sched_raise"))
    sess = sessions(h)
    posts = [i for i, e in h.kind("hook_startup") if e["phase"] == "post"]
    starts = [s[0] for s in sess] + [len(ev)]
    crashes = [i for i, _ in h.kind("crash")]
    spans = []              # (kind, from, to or None)
    for n, (s0, d0, d1, ret) in enumerate(sess):
        nxt = starts[n + 1]
        post = next((i for i in posts if s0 < i < nxt), None)
        spans.append(("startup", s0, post, nxt))
        if d0 is not None:
            spans.append(("shutdown", d0, d1, nxt))
    for kind, a, b, nxt in spans:
        flag = "on_" + kind
        stop = b if b is not None else nxt
        mine = [r for r in runs if a < r.idx < stop]
        for r in mine:
            if not h.spec(r.task).get(flag):
                if kind == "startup" and b is None:
                    continue            # (the startup failed: what follows is the shutdown)
                yield V("wrong-phase", "task %s, which is no %s task, started at %.6f in the %s"
                        % (r.task, kind, r.t / 1e6, kind))
        if kind == "startup" and b is None:
            mine = [r for r in mine if h.spec(r.task).get(flag)]
        for x, y in zip(mine, mine[1:]):
            if x.task != y.task and order(d, x.task, a, y.idx, h) and order(d, y.task, a, y.idx, h):
                h.n["ordered"] += 1
                if order(d, x.task, a, y.idx, h)[0] < order(d, y.task, a, y.idx, h)[0]:
                    yield V("priority", "in the %s task %s (priority %s) started before task %s (priority %s)" % (
                        kind, x.task, order(d, x.task, a, y.idx, h)[0], y.task, order(d, y.task, a, y.idx, h)[0]))
        if b is None or any(a < c < b for c in crashes) or raised:
            continue
        c = phase(ev, a, b, 1)
        for t in h.plan["tasks"]:
            if not t.get(flag):
                continue
            got = [r for r in mine if r.task == t["name"]]
            h.n[kind + "_runs"] += len(got)
            if len(got) > 1:
                yield V("again", "the %s task %s started %d times in one %s" % (kind, t["name"], len(got), kind))
            disabled = d.switch(t["name"], a, b, "disable", "enable", bool(t.get("disabled")))
            if any(x < b for x in crashes) and any(e["name"] in ("disable", "enable")
                                                   for _, _, e in d.ops.get(t["name"], ())):
                disabled = None     # (a restarted host begins with the tasks as they were built)
            if t["start"] is None:
                want = None if disabled is None else not disabled
            else:
                want = d.value(t["name"], t["start"], c, got[0].idx if got else b,
                               got[0].w if got else c.w1, got[0].t if got else c.t1)
                if want is not None and d.unsettled({t["name"]}, c, got[0].idx if got else b):
                    want = None
                if want and disabled is not False:
                    want = None if disabled is None else False
            if got and want is False and not d.batch_maybe(t["name"], got[0].idx):
                yield V("spurious", "the %s task %s started at %.6f although %s" % (
                    kind, t["name"], got[0].t / 1e6, "it is disabled" if disabled else "its condition was false"))
            if not got and want:
                sure, maybe = d.alive(t["name"], a, b)
                if maybe:
                    continue
                if G.exec_of(h.plan, t) == "process":
                    n = sum(d.alive(x["name"], a, b)[1] for x in h.plan["tasks"] if G.exec_of(h.plan, x) == "process")
                    if n >= h.plan["config"]["max_process_count"]:
                        continue
                yield V("missing", "the %s task %s did not start in the %s at %.6f" % (kind, t["name"], kind, c.t0 / 1e6))
    # --- cycles
    for c in d.cycles:
        end = c.i1 if c.i1 is not None else min([i for i in starts + crashes if i > c.i0] + [
            s[1] for s in sess if s[1] is not None and s[1] > c.i0])
        mine = [r for r in runs if c.i0 < r.idx < end]
        for r in mine:
            spec = h.spec(r.task)
            if spec.get("on_startup") or spec.get("on_shutdown"):
                yield V("in-cycle", "the %s task %s started in an ordinary cycle at %.6f" % (
                    "startup" if spec.get("on_startup") else "shutdown", r.task, r.t / 1e6))
        for x, y in zip(mine, mine[1:]):
            if x.task != y.task:
                a, b = order(d, x.task, c.i0, y.idx, h), order(d, y.task, c.i0, y.idx, h)
                if a and b:
                    h.n["ordered"] += 1
                    if a[0] < b[0]:
                        yield V("priority", "in the cycle at %.6f task %s (priority %s) started before task %s "
                                "(priority %s)" % (c.t0 / 1e6, x.task, a[0], y.task, b[0]))


def order(d, task, a, b, h):
    """(priority,) of a task between two events, or None when it was changed about then."""
    val = h.spec(task).get("priority") or 0
    last = [x.i1 if x.i1 is not None else x.i0 for x in d.cycles if x.i0 < a]
    since = last[-1] if last else -1
    prev = -1
    for i0, i1, e in d.ops.get(task, ()):
        if e["name"] == "priority":
            if i0 > b:
                break
            if i1 > since or since < 0 or i0 < prev:
                return None
            val, prev = e["value"], max(prev, i1)
    # (a restarted host begins with the priorities it was built with)
    if any(i < b for i, _ in h.kind("crash")) and any(e["name"] == "priority" for _, _, e in d.ops.get(task, ())):
        return None
    return (val,)


def stats(h):
    n = dict(getattr(h, "n", {}))
    n["nontrivial"] = n.get("startup_runs", 0) + n.get("shutdown_runs", 0) > 0 and n.get("ordered", 0) > 0
    return n
