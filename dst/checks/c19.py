"""C19 restart: a restart is a complete shutdown followed by exactly one new start, whatever happens meanwhile."""
from .. import gen as G
from ..decide import Decider, lifetimes
from ..hist import V

STARTS = ("every('0.4 s')", "every('1 s')", "every('2 s', based='finish')", "true", "~started", "~succeeded", "every('1 min')",
          "every('3 s') & ~failed", "retry(1) | every('4 s')", "false")


def gen(rng, tier):
    p = G.base(rng, 3, 7, tier)
    p["config"]["restarting"] = rng.choice(["replace", "replace", "relaunch", "fresh", "recall", "recall"])
    p["config"]["multilaunch"] = rng.random() < 0.2
    p["config"]["max_process_count"] = 8
    p["config"]["silence_task_prerun"] = True
    p["repo"]["kind"] = "csv" if rng.random() < 0.15 else "memory"
    if rng.random() < 0.15:
        p["config"]["instant_shutdown"] = True
    p["ops_once"] = True
    for i in range(rng.randint(1, 4)):
        ex = rng.choice(G.EXECS)
        t = G.task(rng, "t%d" % i, ex, STARTS + (("after_success('t0')", "after_finish('t0')") if i else ()))
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "raise", "inaction", "term"), poll=not t.get("async"),
                               durs=(0, 0.01, 0.2, 0.8, 1.5))
        r = rng.random()
        if r < 0.12:
            t["on_startup"] = True
            t["start"] = rng.choice([None, None, "~succeeded"])
        elif r < 0.3:
            t["on_shutdown"] = True
            t["start"] = None
        if rng.random() < 0.1:
            t["timeout"] = 0.5
        if rng.random() < 0.1:
            t["permanent"] = True
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    h = p["horizon"]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        at = rng.choice([rng.uniform(0, h), rng.uniform(0, h), h + rng.choice([-0.4, -0.1, -0.01, 0, 0.02])])
        p["ops"].append({"at": round(at, 4), "op": "restart", "op_thread": rng.randint(0, 1)})
        if rng.random() < 0.2:
            p["ops"].append({"at": round(at + rng.choice([0, 0.05, 0.3]), 4), "op": "restart", "op_thread": 1})
    if rng.random() < 0.25:
        p["tasks"].append({"name": "restarter", "execution": "main", "script": [{"out": "restart"}],
                           "start": "hcond('again') & ~started"})
        p["conds"]["again"] = {"true": [[round(rng.uniform(0.2, h), 3), 1e9]]}
        if rng.random() < 0.5:
            p["ops"] = []
    elif rng.random() < 0.2:        # a task asks for it
        t = rng.choice(p["tasks"])
        if G.exec_of(p, t) != "process" and not t.get("on_shutdown") and not t.get("on_startup"):
            t["script"][-1]["ops_before"] = [{"op": "restart"}]
            t["start"] = "every('2 s')"
    r = rng.random()
    if r < 0.25:
        p["end"] = {"mode": "shut_down", "force": True}
    elif r < 0.6:
        p["end"] = {"mode": "shut_down"}
    elif r < 0.7:
        p["end"] = {"mode": "shut_cond", "at": h}
    if rng.random() < 0.2:
        x = rng.choice(p["ops"])["at"] if p["ops"] else h
        p["ops"].append({"at": round(x + rng.choice([0.01, 0.15, 0.4, 1.0]), 4), "op": "shut_down", "op_thread": 2})
    if rng.random() < 0.2:
        p["ops"].append({"at": G.op_time(rng, p), "op": rng.choice(["terminate", "disable"]), "task": rng.choice(names), "op_thread": 3})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.4)
    G.child_faults(rng, p, 0.1)
    G.clock_faults(rng, p, 0.1, back=False)
    p["downtime"] = rng.choice([0, 0.05, 0.5])
    return p


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    ev = h.events
    h.n = {"restarts": 0, "alive_at_restart": 0, "asked": 0, "cancelled": 0}
    if h.kind("no_exit"):
        yield V("no-return", "the scheduler did not return within %d s after the shutdown" % h.plan["grace"])
        return
    for i, e in h.kind("sched_raise"):
        yield V("raised", "the scheduler raised %s: %s" % (e["err"], e["msg"]))
        return
    mode = h.plan["config"]["restarting"]
    done = {e["n"]: i for i, e in h.kind("op_done")}
    asks = [(i, done.get(e["n"], 1 << 60)) for i, e in h.kind("op") if e["name"] == "restart"]
    shuts = [(i, done.get(e["n"], 1 << 60)) for i, e in h.kind("op") if e["name"] == "shut_down"]
    raising = [(inv.idx0, inv.idx1 or 1 << 60) for inv in h.invs if inv.out == "restart"]
    at = h.plan["end"].get("at") if h.plan["end"]["mode"] == "shut_cond" else None
    life = lifetimes(h)
    # the sessions: startup pre, startup post, shutdown pre, shutdown post, what followed
    sess = []
    for i, e in enumerate(ev):
        k = e["k"]
        if k == "hook_startup":
            if e["phase"] == "pre":
                if sess and sess[-1]["next"] is None:
                    sess[-1]["next"], sess[-1]["end"] = "recall", i
                sess.append({"s0": i, "s1": None, "d0": None, "d1": None, "next": None, "end": None, "relaunch": 0})
            elif sess:
                sess[-1]["s1"] = i
        elif not sess:
            continue
        elif k == "hook_shutdown":
            if sess[-1]["d0"] is not None and e["phase"] == "pre" or sess[-1]["d0"] is None and e["phase"] == "post":
                yield V("phases", "the shutdown hooks ran out of order at %.6f" % (e["t"] / 1e6))
                return
            sess[-1]["d0" if e["phase"] == "pre" else "d1"] = i
        elif k == "relaunch":
            sess[-1]["relaunch"] += 1
            sess[-1]["next"], sess[-1]["end"] = "relaunch", i
            if not e["whole"]:
                yield V("not-whole", "the program is not restarted with its arguments")
        elif k == "exec" and sess[-1]["next"] is None:
            sess[-1]["next"], sess[-1]["end"] = "replace", i
        elif k == "sched_return" and sess[-1]["next"] is None:
            sess[-1]["next"], sess[-1]["end"] = "return", i
    for n, s in enumerate(sess):
        last = n + 1 == len(sess)
        if s["next"] is None:
            if not last:
                yield V("phases", "a session has no end")
            continue
        if s["d0"] is None or s["d1"] is None or s["end"] < s["d1"]:
            yield V("no-shutdown", "the scheduler went on to %s at %.6f without a complete shutdown"
                    % (s["next"], ev[s["end"]]["t"] / 1e6))
            continue
        restarted = s["next"] != "return"
        sure = any(i0 > s["s0"] and i1 < s["d0"] for i0, i1 in asks + raising)
        prev_end = sess[n - 1]["d0"] if n else 0
        maybe = any(i0 < s["end"] and i1 > prev_end for i0, i1 in asks + raising)
        stop_sure = any(i0 > s["s0"] and i1 < s["d1"] for i0, i1 in shuts)
        stop_maybe = any(i0 < s["end"] and i1 > prev_end for i0, i1 in shuts)
        if at is not None and ev[s["d0"]]["t"] >= at * 1e6 - 1000:
            stop_maybe = True
        if sure:
            h.n["asked"] += 1
        if restarted:
            h.n["restarts"] += 1
            want = {"replace": "replace", "relaunch": "relaunch", "fresh": "relaunch", "recall": "recall"}[mode]
            if s["next"] != want or s["relaunch"] != (want == "relaunch"):
                yield V("mode", "the restart at %.6f was made as %s (%d times), not as %s"
                        % (ev[s["end"]]["t"] / 1e6, s["next"], s["relaunch"], mode))
            if not maybe:
                yield V("unasked", "the scheduler restarted at %.6f although nothing asked it to" % (ev[s["end"]]["t"] / 1e6))
            if stop_sure:
                yield V("not-stopped", "the scheduler restarted at %.6f although it was shut down" % (ev[s["end"]]["t"] / 1e6))
            if last and want != "recall" and ev[s["end"]]["t"] / 1e6 < h.plan["horizon"] - 2 and \
                    len(sess) < h.plan.get("max_boots", 6) and h.kind("end"):
                yield V("no-start", "nothing started after the restart at %.6f" % (ev[s["end"]]["t"] / 1e6))
            for r in h.runs.values():
                if r.rid in life and s["s0"] < r.idx < s["end"]:
                    a, b = life[r.rid]
                    if b is None or b > s["end"]:
                        yield V("alive", "run %s of task %s (%s) was alive when the scheduler restarted at %.6f"
                                % (r.rid, r.task, r.exec, ev[s["end"]]["t"] / 1e6), exec=r.exec)
                    if b is None or b > s["d0"]:
                        h.n["alive_at_restart"] += 1
                if s["s0"] < r.idx < s["end"] and not any(x["action"] != "run" and i < s["end"] for i, x in r.logs) and \
                        not any(f["kind"] == "kill_child" for f in h.plan["faults"]):
                    yield V("no-record", "the finish of run %s of task %s was not logged before the restart at %.6f"
                            % (r.rid, r.task, ev[s["end"]]["t"] / 1e6), exec=r.exec)
        elif sure and not stop_maybe:
            yield V("no-restart", "the scheduler returned at %.6f although a restart was asked" % (ev[s["end"]]["t"] / 1e6))
        elif sure:
            h.n["cancelled"] += 1
        # no further cycle once it is asked
        cyc = [i for i, e in h.kind("cycle") if s["s0"] < i < s["d0"]]
        for a, b in zip(cyc, cyc[1:]):
            if any(s["s0"] < i0 and i1 < a for i0, i1 in asks) and s["s1"] is not None:
                yield V("cycle-after-restart", "a cycle began at %.6f although restart() had been called before the previous "
                        "one" % (ev[b]["t"] / 1e6))
                break
        # startup and shutdown tasks of every session
        for t in h.plan["tasks"]:
            if t["start"] is not None or any(x["name"] in ("disable", "run") and x.get("task") == t["name"] for _, x in h.kind("op")):
                continue
            for key, lo, hi in (("on_startup", s["s0"], s["s1"]), ("on_shutdown", s["d0"], s["d1"])):
                if t.get(key) and hi is not None:
                    k = sum(lo < r.idx < hi for r in h.task_runs(t["name"]))
                    if k != 1:
                        yield V(key, "task %s ran %d times in the %s at %.6f" % (t["name"], k, key[3:], ev[lo]["t"] / 1e6))
    d = Decider(h)
    h.decider = d
    for t in h.plan["tasks"]:
        if t.get("on_startup") or t.get("on_shutdown") or t["start"] is None:
            continue
        yield from d.check(t["name"])


def stats(h):
    n = dict(getattr(h, "n", {}))
    if getattr(h, "decider", None):
        n.update(h.decider.n)
    n["nontrivial"] = n.get("restarts", 0) > 0
    return n
