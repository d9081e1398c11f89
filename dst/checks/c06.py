"""C06 termination: what has to be terminated is terminated in the next cycle, and nothing else is."""
from .. import gen as G
from .. import ref
from ..decide import Decider
from ..hist import V, died

TIMEOUTS = ((0.2, 0.2), (0.5, 0.5), ("300 ms", 0.3), ("0.7 s", 0.7), (1.0, 1.0), ("never", None))


def gen(rng, tier):
    p = G.base(rng, 5, 12, tier)
    p["config"]["multilaunch"] = rng.random() < 0.3
    glob = rng.choice(TIMEOUTS[:5] + ((None, 1800.0),) * 3)
    p["global_timeout"] = glob[1]
    if glob[0] is not None:
        p["config"]["timeout"] = glob[0]
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(("async", "thread", "process", "process", "main"))
        t = G.task(rng, "t%d" % i, ex, ["true", "every('0.5 s')", "every('1 s')", "hcond('go%d')" % i])
        p["conds"]["go%d" % i] = {"true": [[a, a + 0.12] for a in sorted(G.op_time(rng, p) for _ in range(3))]}
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "term"), poll=not t.get("async"),
                               durs=(0.05, 0.35, 0.8, 1.5, 4.0))
        for b in t["script"]:
            if b.get("poll"):
                b["on_flag"] = rng.choice(["term", "term", "finish", "ignore"])
                b["cleanup"] = rng.choice([0, 0, 0.2])
            elif t.get("async") and ex == "async":
                b["cleanup"] = rng.choice([0, 0, 0.2])
        r = rng.random()
        t["limit"] = p["global_timeout"]
        if r < 0.5:
            t["timeout"], t["limit"] = rng.choice(TIMEOUTS)
        if rng.random() < 0.2:
            t["permanent"] = True
        if rng.random() < 0.35:
            p["conds"]["end%d" % i] = {"true": [sorted([G.op_time(rng, p), G.op_time(rng, p)])
                                                for _ in range(rng.randint(1, 2))]}
            t["end"] = rng.choice(["hcond('end%d')" % i, "hcond('end%d')" % i, "~hcond('end%d')" % i,
                                   "hcond('end%d') & ~running('t0')" % i, "time_of_second.between(300, 600)",
                                   "running.more_than('400 ms')", "running.more_than('400 ms') | hcond('end%d')" % i])
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    for _ in range(rng.choice([0, 1, 2, 5])):
        at = G.op_time(rng, p)
        n = rng.choice(names)
        p["ops"].append({"at": at, "op": "terminate", "task": n, "op_thread": rng.randint(0, 1)})
        if rng.random() < 0.2:
            p["ops"].append({"at": round(at + rng.choice([0, 0.05]), 4), "op": "run", "task": n, "op_thread": 2})
    if rng.random() < 0.2:
        a, b = sorted([G.op_time(rng, p), G.op_time(rng, p)])
        p["ops"] += [{"at": a, "op": "hold", "op_thread": 3}, {"at": b, "op": "resume", "op_thread": 3}]
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p)
    G.clock_faults(rng, p, 0.15, back=False)
    G.child_faults(rng, p, 0.15)
    return p


def limit(h, name):
    s = h.spec(name)
    return None if s.get("permanent") else s.get("limit", h.plan["global_timeout"])


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    d = Decider(h)
    h.decider = d
    h.n = {"required": 0, "terminations": 0}
    down = h.kind("hook_shutdown")
    down = down[0][0] if down else len(h.events)
    procs = {}
    for idx, e in h.kind("proc_terminate"):
        procs.setdefault(e["proc"], idx)
    slow = 0.1 + sum(f["by"] for f in h.plan["faults"] if f["kind"] in ("stall", "freeze_host", "freeze_child"))
    slow += h.plan["lat_max"] * 2e-4
    endv = {}

    def end_value(name, c):
        key = (name, c.i0)
        if key not in endv:
            expr = h.spec(name).get("end")
            v = False
            if expr:
                end = c.i1 if c.i1 is not None else len(h.events)
                last = h.events[min(end, len(h.events) - 1)]
                v = d.value(name, expr, c, end, last["w"], last["t"])
            endv[key] = v
        return endv[key]

    for r in h.runs.values():
        if r.exec == "main" or r.rid not in d.life:
            continue
        s, e = d.life[r.rid]
        lim = limit(h, r.task)
        spec = h.spec(r.task)
        terms = [(i0, i1) for i0, i1, o in d.ops.get(r.task, ()) if o["name"] == "terminate"]
        inv = r.invs[0] if r.invs else None
        beh = spec["script"][inv.i % len(spec["script"])] if inv else {}
        who = "run %s of task %s (%s, started %.6f)" % (r.rid, r.task, r.exec, r.t / 1e6)
        # --- what must happen
        able = r.exec in ("process", "async") or (inv is not None and beh.get("poll") and beh.get("on_flag") != "ignore")
        if able:
            for c in d.cycles:
                if c.i1 is None or c.i0 < s or c.i1 > down:
                    continue
                if e is not None and e < c.i0:
                    break
                why = None
                if lim is not None and c.w0 - r.w > lim * 1e6:
                    why = "its timeout of %s s had passed" % lim
                elif any(r.idx < i0 and i1 < c.i0 for i0, i1 in terms):
                    why = "terminate() had been called"
                elif end_value(r.task, c) is True:
                    why = "its end condition %s was true" % spec["end"]
                if why:
                    h.n["required"] += 1
                    grace = beh.get("cleanup", 0) + beh.get("poll", 0) + slow
                    over = h.events[e]["t"] if e is not None else None
                    if over is None and h.events[-1]["t"] <= c.t1 + grace * 1e6:
                        break
                    if over is None or over > c.t1 + grace * 1e6:
                        yield V("not-terminated", "%s was not terminated in the cycle at %.6f although %s (it %s)"
                                % (who, c.t0 / 1e6, why, "never ended" if over is None else "ended at %.6f" % (over / 1e6)),
                                exec=r.exec)
                    break
        # --- what must not happen
        at = None
        if r.exec == "process":
            at = procs.get(r.proc)
        elif inv is not None and inv.idx1 is not None and (
                inv.out == "cancelled" or (r.exec == "thread" and inv.t1 is not None and beh.get("poll") and
                                           inv.t1 - inv.t0 < beh["dur"] * 1e6 - 1000)):
            at = inv.idx1
        if at is None or at > down:
            continue
        h.n["terminations"] += 1
        w = h.events[at]["w"]
        t = h.events[at]["t"]
        if lim is not None and w - r.w > lim * 1e6 - slow * 1e6:
            continue
        if any(i0 < at and not any(i1 < c.i0 and c.i1 is not None and c.i1 < r.idx for c in d.cycles) for i0, i1 in terms):
            continue
        if spec.get("end"):
            back = t - int((beh.get("cleanup", 0) + beh.get("poll", 0) + slow) * 1e6)
            cs = [c for c in d.cycles if c.i0 < at and (c.t1 is None or c.t1 >= back)]
            if not cs or any(end_value(r.task, c) is not False for c in cs):
                continue
        yield V("spurious-termination", "%s was terminated at %.6f without a reason (timeout %s, end condition %s, "
                "terminate() called %d times)" % (who, t / 1e6, lim, spec.get("end"), len(terms)), exec=r.exec)


def stats(h):
    n = dict(getattr(h, "n", {}))
    n["nontrivial"] = bool(n.get("required"))
    return n
