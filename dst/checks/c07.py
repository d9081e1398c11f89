"""C07 shutdown: graceful shutdowns wait, forced ones terminate, and nothing of the scheduler survives its return."""
from .. import gen as G
from ..decide import cycles, lifetimes
from ..hist import V


def gen(rng, tier):
    p = G.base(rng, 2, 6, tier)
    p["config"]["multilaunch"] = rng.random() < 0.25
    p["config"]["restarting"] = "recall"
    if rng.random() < 0.2:
        p["config"]["instant_shutdown"] = True
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(("async", "thread", "process", "process", "main"))
        t = G.task(rng, "t%d" % i, ex, ["true", "every('0.5 s')", "every('2 s')", "hcond('go%d')" % i])
        p["conds"]["go%d" % i] = {"true": [[max(0, p["horizon"] - a), 1e9] for a in [rng.uniform(0, 1)]]}
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction"), poll=not t.get("async"),
                               durs=(0.05, 0.35, 0.8, 1.5, 4.0))
        for b in t["script"]:
            if b.get("poll"):
                b["on_flag"] = rng.choice(["term", "term", "finish", "ignore"])
                b["cleanup"] = rng.choice([0, 0, 0.2])
            elif t.get("async") and ex == "async":
                b["cleanup"] = rng.choice([0, 0, 0.2])
        t["limit"] = None
        if rng.random() < 0.25:
            t["timeout"], t["limit"] = rng.choice([(0.5, 0.5), (1.0, 1.0), ("2.5 s", 2.5)])
        if rng.random() < 0.2:
            t["permanent"] = True
        if rng.random() < 0.15:
            p["conds"]["end%d" % i] = {"true": [[p["horizon"] + rng.uniform(-0.5, 1.5), 1e9]]}
            t["end"] = "hcond('end%d')" % i
        r = rng.random()
        if r < 0.1:
            t["on_startup"] = True
        elif r < 0.3:
            t["on_shutdown"] = True
            t["start"] = rng.choice([None, "true"])
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    h = p["horizon"]
    r = rng.random()
    if r < 0.35:
        p["end"] = {"mode": "shut_down", "force": True}
    elif r < 0.55:
        p["end"] = {"mode": "shut_cond", "at": h}
    else:
        p["end"] = {"mode": "shut_down"}
    if rng.random() < 0.35:         # once more
        for _ in range(rng.randint(1, 2)):
            p["ops"].append({"at": round(h + rng.choice([0, 0.001, 0.05, 0.3, 1, 2]), 4), "op": "shut_down",
                             "op_thread": rng.randint(0, 1)})
            if rng.random() < 0.3:
                p["ops"][-1]["force"] = rng.random() < 0.7
    if rng.random() < 0.25:
        p["ops"].append({"at": round(h + rng.uniform(-0.5, 1.5), 4), "op": rng.choice(["terminate", "run", "run"]),
                         "task": rng.choice(names), "op_thread": 2})
    if rng.random() < 0.15:
        p["ops"].append({"at": round(rng.choice([rng.uniform(0.3, h), h + rng.choice([-0.3, -0.1, -0.02, 0, 0.05])]), 4),
                         "op": "restart", "op_thread": 3})
    if rng.random() < 0.1:
        p["ops"].append({"at": round(h - rng.uniform(0.1, 1), 4), "op": "hold", "op_thread": 3})
    r = rng.random()
    if r < 0.12:                    # a fatal error
        p["conds"]["bad"] = {"raise_at": [rng.randint(2, 30)]}
        p["tasks"].append({"name": "bad", "execution": "main", "start": "hcond('bad')", "script": [{}]})
        p["fatal"] = True
    elif r < 0.25:
        out = rng.choice(["exit", "restart", "restart"])
        p["tasks"].append({"name": "ender", "execution": "main", "script": [{"out": out}],
                           "start": "hcond('stop') & ~started"})
        p["conds"]["stop"] = {"true": [[round(rng.uniform(0.5, h), 3), 1e9]]}
        p["exit"] = out == "exit"
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    G.child_faults(rng, p, 0.1)
    if rng.random() < 0.25:
        p["sessions"] = 2
        if p["end"]["mode"] == "shut_cond":
            p["end"] = {"mode": "shut_down"}
        if rng.random() < 0.6 and "force" in p["end"]:
            p["second_force"] = False
    return p


def sessions(h):
    """[(startup pre, shutdown pre, shutdown post, return)] as indices, None where missing."""
    out = []
    for idx, e in enumerate(h.events):
        if e["k"] == "hook_startup" and e["phase"] == "pre":
            out.append([idx, None, None, None])
        elif e["k"] == "hook_shutdown" and out:
            out[-1][1 if e["phase"] == "pre" else 2] = idx
        elif e["k"] == "sched_return" and out:
            out[-1][3] = idx
    return out


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    ev = h.events
    h.n = {"graceful": 0, "forced": 0, "alive_at_shutdown": 0, "waited": 0, "terminated": 0}
    cyc = cycles(h)
    life = lifetimes(h)
    done = {e["n"]: i for i, e in h.kind("op_done")}
    shuts = [(i, done.get(e["n"], 1 << 60), e.get("force")) for i, e in h.kind("op") if e["name"] == "shut_down"]
    terms = [(i, e["task"]) for i, e in h.kind("op") if e["name"] == "terminate"]
    sleep = h.plan["config"].get("cycle_sleep") or 0.0
    slow = 0.1 + sum(f["by"] for f in h.plan["faults"] if f["kind"] in ("stall", "freeze_host", "freeze_child"))
    slow += h.plan["lat_max"] * 4e-4 + 2 * sleep
    base_tail = sum(max(b.get("dur", 0) for b in t["script"]) for t in h.plan["tasks"]
                if t.get("on_shutdown") and G.exec_of(h.plan, t) == "main")
    base_tail += max([b.get("poll", 0) for t in h.plan["tasks"] for b in t["script"]] + [0])
    nap = 30_000 + h.plan["lat_max"] * 400
    if any(f["kind"] in ("stall", "freeze_host") for f in h.plan["faults"]):
        nap = 1 << 60
    if h.kind("no_exit"):
        yield V("no-return", "the scheduler did not return within %d s of simulated time after the shutdown" % h.plan["grace"])
        return
    sess = sessions(h)
    for n, (s0, d0, d1, ret) in enumerate(sess):
        if d0 is None:
            yield V("no-shutdown", "the scheduler ended without its shutdown sequence")
            continue
        t_down = ev[d0]["t"]
        stop = d1 if d1 is not None else len(ev)
        # the scheduler waits up to 10 s for the first record of a process which was killed
        crashes = 10.5 * sum(d0 < i < stop for i, _ in h.kind("proc_crash"))
        # --- nothing new
        for r in h.runs.values():
            if d0 < r.idx < stop and not h.spec(r.task).get("on_shutdown"):
                yield V("start-in-shutdown", "task %s started at %.6f during the shutdown" % (r.task, r.t / 1e6))
        mine = [c for c in cyc if s0 < c.i0 < stop]
        asked = [i1 for i0, i1, f in shuts if s0 < i0 < d0]
        at = h.plan["end"].get("at") if h.plan["end"]["mode"] == "shut_cond" else None
        for a, b in zip([None] + mine, mine):
            prev = a.i1 if a is not None else next(
                (i for i, e in enumerate(ev[s0:], s0) if e["k"] == "hook_startup" and e["phase"] == "post"), None)
            if prev is None:
                continue
            # (or while the scheduler slept: it looks for the request right before it begins a cycle)
            if any(i1 < prev or i1 < len(ev) and ev[i1]["t"] + nap < b.t0 for i1 in asked):
                yield V("cycle-after-shut-down", "a cycle began at %.6f although shut_down() had been called" % (b.t0 / 1e6))
                break
            if at is not None and ev[prev]["t"] >= at * 1e6:
                yield V("cycle-after-shut-cond", "a cycle began at %.6f although the shut condition is true since %.3f"
                        % (b.t0 / 1e6, at))
                break
        # --- was it forced?
        inside = [(i0, i1, f) for i0, i1, f in shuts if i1 > s0 and i0 < stop]
        straddle = any(i0 < s0 for i0, i1, f in inside)
        force_at = None         # certainly forced once this event has happened
        maybe_at = None
        seq = [x for x in inside if x[0] > s0]
        for j, (i0, i1, f) in enumerate(seq):
            if f is True or f is None and any(y[1] < i0 for y in seq[:j]):
                force_at = min(force_at, i1) if force_at is not None else i1
            if f is True or f is None and (j or straddle):
                maybe_at = min(maybe_at, i0) if maybe_at is not None else i0
        raised = next((e for i, e in h.kind("sched_raise") if i > d0 and (n + 1 == len(sess) or i < sess[n + 1][0])), None)
        error = [i for i, _ in h.kind("cond_raise") if s0 < i < d0]
        exits = [i for i in h.invs if i.out == "exit" and s0 < i.idx0 < stop]
        if h.plan["config"].get("instant_shutdown") or error:
            force_at = maybe_at = d0
        if exits or straddle or (raised is not None and not error):
            maybe_at = d0 if maybe_at is None else min(maybe_at, d0)
        if force_at is not None and force_at > stop:
            force_at = None
        h.n["forced" if force_at is not None else "graceful"] += 1
        t_force = None if force_at is None else max(ev[force_at]["t"], t_down)
        # --- what happened to the runs (terminated async runs clean up one after another,
        # and the start of a process is waited for)
        tail = base_tail + crashes + 0.3 * (1 + sum(r.exec == "process" and d0 < r.idx < stop for r in h.runs.values())) + sum(
            max(b.get("cleanup", 0) for b in h.spec(r.task)["script"]) for r in h.runs.values()
            if r.rid in life and s0 < r.idx < stop and not (life[r.rid][1] is not None and life[r.rid][1] < d0))
        for r in h.runs.values():
            if r.exec == "main" or r.rid not in life or r.idx > stop or r.idx < s0:
                continue
            a, b = life[r.rid]
            if b is not None and b < d0:
                continue
            h.n["alive_at_shutdown"] += 1
            spec = h.spec(r.task)
            inv = r.invs[0] if r.invs else None
            beh = spec["script"][inv.i % len(spec["script"])] if inv else {}
            who = "run %s of task %s (%s, started %.6f)" % (r.rid, r.task, r.exec, r.t / 1e6)
            able = r.exec in ("process", "async") or (inv is not None and beh.get("poll") and beh.get("on_flag") != "ignore")
            over = ev[b]["t"] if b is not None else None
            end_at = h.plan["conds"].get("end%s" % r.task[1:], {}).get("true", [[None]])[0][0] if spec.get("end") else None
            if able:
                must = None
                if t_force is not None and r.idx < force_at:
                    must = (t_force, "the shutdown was forced")
                if spec.get("permanent"):
                    must = must or (max(t_down, r.t), "it is permanent")
                else:
                    if spec.get("limit"):
                        x = (max(t_down, r.t + int(spec["limit"] * 1e6)), "of its timeout")
                        must = min(must, x) if must else x
                    if end_at is not None:
                        x = (max(t_down, int(end_at * 1e6)), "of its end condition")
                        must = min(must, x) if must else x
                if must and (over if over is not None else ev[-1]["t"]) > must[0] + (tail + slow) * 1e6:
                    yield V("not-terminated", "%s was not terminated in the shutdown (from %.6f) although %s; it ended at %s"
                            % (who, t_down / 1e6, must[1], "%.6f" % (over / 1e6) if over else "no time"), exec=r.exec)
            cut = None
            if r.exec == "process":
                cut = next((i for i, e in h.kind("proc_terminate") if e["proc"] == r.proc and i > d0), None)
            elif inv is not None and inv.idx1 is not None and inv.idx1 > d0 and (
                    inv.out == "cancelled" or (r.exec == "thread" and beh.get("poll") and
                                               inv.t1 - inv.t0 < beh["dur"] * 1e6 - 1000)):
                cut = inv.idx1
            if cut is None:
                h.n["waited"] += 1
                continue
            h.n["terminated"] += 1
            if maybe_at is not None and maybe_at < cut or spec.get("permanent"):
                continue
            if spec.get("limit") and ev[cut]["t"] - r.t > (spec["limit"] - slow) * 1e6:
                continue
            if end_at is not None and ev[cut]["t"] >= (end_at - slow) * 1e6:
                continue
            if any(i < cut and t == r.task for i, t in terms):
                continue
            yield V("not-waited", "%s was terminated at %.6f in a shutdown which is not forced" % (who, ev[cut]["t"] / 1e6),
                    exec=r.exec)
        # --- nothing left
        for inv in h.invs:
            if s0 < inv.idx0 < stop and (inv.idx1 is None or d1 is not None and inv.idx1 > d1):
                yield V("alive-after", "an execution of task %s was still in progress when the shutdown was over" % inv.task)
        if ret is not None:
            if ev[ret]["alive"]:
                yield V("alive-after", "%d threads or processes of tasks were alive when the scheduler returned" % ev[ret]["alive"])
        if d1 is None:
            yield V("no-post-hook", "the shutdown hooks were not completed")


def stats(h):
    n = dict(getattr(h, "n", {}))
    n["nontrivial"] = bool(n.get("alive_at_shutdown"))
    return n
