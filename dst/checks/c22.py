"""C22 status conditions: what happened, what runs and how long the scheduler is up decide, as the log and the runs tell."""
import re

from .. import gen as G
from .. import ref
from ..decide import Decider
from ..hist import V

SCOPES = ("second", "minute", "hour", "day", "week")
THIS = {"second": ("minute",), "minute": ("minute", "hour"), "hour": ("hour", "day"), "day": ("day", "week", "month"),
        "week": ("week", "month")}
ACTS = ("started", "succeeded", "failed", "finished")
OWN = re.compile(r"(succeeded|finished)\.|count\('(success|finish)', None")
COUNTS = ("run", "success", "fail", "finish", "terminate", "inaction")


def span(us):
    """A time span in words."""
    s = int(us)
    if s >= 86400 and s % 86400 == 0:
        return "%d days" % (s // 86400)
    if s >= 3600:
        return "%d hours %d min" % (s // 3600, s % 3600 // 60)
    if s >= 60:
        return "%d min %d s" % (s // 60, s % 60)
    return "%d ms" % int(round(us * 1000))


def atom(rng, names, scope, unit, me):
    other = rng.choice(names)
    kind = rng.choice(["act", "act", "act", "act_own", "count", "count", "count_own", "running", "running", "run_own",
                       "cycles", "up", "fcond", "scond"])
    if kind in ("act", "act_own"):
        a = rng.choice(ACTS) + ("(%r)" % other if kind == "act" else "")
        r = rng.random()
        if r < 0.2 and kind == "act":
            return a
        sc = rng.choice(THIS[scope])
        per = "this_" + sc if sc != "day" or rng.random() < 0.5 else "today"
        w = G.window(rng, "%s.%s" % (a, per), sc)
        return a + "." + per if ".starting(" in w else w
    if kind in ("count", "count_own"):
        t = repr(other) if kind == "count" else "None"
        sc = rng.choice([None if kind == "count" else "this", "this", "past"])
        sc = None if sc is None else rng.choice(THIS[scope]) if sc == "this" else span(unit * rng.uniform(0.05, 1.5))
        return "(count(%r, %s, %r) %s %d)" % (rng.choice(COUNTS), t, sc, rng.choice([">=", "==", "<", ">", "<=", "!="]),
                                            rng.choice([0, 1, 1, 2, 3, 5]))
    if kind == "running":
        r = rng.random()
        base = "running(%r)" % other
        if r < 0.3:
            return base
        if r < 0.45:
            return "(%s %s %d)" % (base, rng.choice([">=", "==", "<", ">", "<="]), rng.choice([0, 1, 2]))
        a, b = sorted((unit * rng.uniform(0.005, 0.1), unit * rng.uniform(0.02, 0.2)))
        return base + rng.choice([".more_than(%r)" % span(a), ".less_than(%r)" % span(b),
                                  ".between(%r, %r)" % (span(a), span(b))])
    if kind == "run_own":
        return rng.choice(["~running", "(running < 2)", "(running <= 1)"])
    if kind == "cycles":
        return rng.choice(["scheduler_cycles(more_than=%d)", "scheduler_cycles(less_than=%d)"]) % rng.choice([1, 3, 20])
    if kind == "up":
        return rng.choice(["scheduler_running(more_than=%r)", "scheduler_running(less_than=%r)"]) % span(unit * rng.uniform(
            0.1, 2))
    return "fcond('a:%s')" % me if kind == "fcond" else "scond('b')"


def gen(rng, tier):
    scope = rng.choice(SCOPES)
    p = G.scaled(rng, scope, tier)
    unit = p["scale"]
    if scope == "second":
        p["config"]["cycle_sleep"] = rng.choice([0.05, 0.1, 0.25])
        p["horizon"] = round(rng.uniform(5, 10), 3)
        unit = 4.0
    if rng.random() < 0.4:
        p["config"]["timezone"] = rng.choice([0, 2, -5, 9, -11, 5.5])
    p["fconds"] = True
    for key in "ab":
        p["conds"][key] = {"true": [sorted([G.op_time(rng, p), G.op_time(rng, p)])]}
    n = rng.randint(2, 5)
    src = rng.randint(1, max(1, n - 1))
    for i in range(n):
        ex = rng.choice(G.EXECS)
        name = "t%d" % i
        if i < src:
            expr = "every(%r)" % span(unit * rng.choice([0.12, 0.3, 0.45, 1.1, 2.3]))
            if rng.random() < 0.2:
                expr = "%s & ~running" % expr
        else:
            # (the period of a task which is started by its own success or finish is its own matter)
            names = [t["name"] for t in p["tasks"] if not OWN.search(t["start"])]
            expr = atom(rng, names, scope, unit, name)
            r = rng.random()
            if r < 0.3:
                expr = "%s & %s" % (expr, atom(rng, names, scope, unit, name))
            elif r < 0.45:
                expr = "%s | %s" % (expr, atom(rng, names, scope, unit, name))
            elif r < 0.55:
                expr = "~(%s) & %s" % (expr, atom(rng, names, scope, unit, name))
            if rng.random() < 0.4:
                expr = "(%s) & every(%r)" % (expr, span(unit * rng.choice([0.06, 0.2])))
        t = G.task(rng, name, ex, [expr])
        t["script"] = G.script(rng, n=rng.randint(1, 6), execution=ex,
                               outs=rng.choice([("ok", "ok", "raise", "inaction", "term"), ("raise", "ok"), ("ok",)]),
                               poll=False, durs=(0, 0.001, unit / 300, unit / 30, unit / 8))
        for b in t["script"]:
            b["dur"] = min(b["dur"], unit / 300) if ex == "main" else b["dur"]
        if rng.random() < 0.2:
            t["multilaunch"] = True
        p["tasks"].append(t)
    if rng.random() < 0.25:
        p["faults"].append({"kind": "clock_jump", "at": round(rng.uniform(0, p["horizon"]), 3),
                            "by": round(rng.uniform(0, 1.5) * unit, 3)})
    if rng.random() < 0.25:
        p["faults"].append({"kind": "stall", "at": round(rng.uniform(0, p["horizon"]), 3),
                            "by": round(rng.uniform(0, 1.2) * unit, 3)})
    if rng.random() < 0.25:
        p["faults"].append({"kind": "crash", "at": round(rng.uniform(0, p["horizon"]), 3)})
        p["downtime"] = round(rng.choice([0.01, 0.3, 1.1]) * unit, 3)
    if rng.random() < 0.2:
        p["config"]["force_status_from_logs"] = True
    if rng.random() < 0.35:
        names = [t["name"] for t in p["tasks"] if not OWN.search(t["start"])]
        what = rng.choice(["scheduler_cycles(more_than=%d)" % rng.choice([1, 4, 30]),
                           "scheduler_running(more_than=%r)" % span(p["horizon"] * rng.uniform(0.2, 0.9)),
                           "%s(%r)" % (rng.choice(ACTS), rng.choice(names)),
                           "(count(%r, %r, None) >= %d)" % (rng.choice(("run", "success", "fail")), rng.choice(names),
                                                           rng.choice([1, 2, 4]))])
        p["end"] = {"mode": "cond", "cond": "%s | at(%r)" % (what, p["horizon"]), "what": what}
    G.syntax(rng, p)
    return p


def shut(h, d):
    """The session ends when, and only when, its shut condition is true."""
    what = h.plan["end"]["what"]
    cond, names = ref.parse(what), ref.mentions(what)
    stops = [(i, e) for i, e in h.kind("hook_shutdown") if e["phase"] == "pre"]
    for j, c in enumerate(d.cycles):
        if c.i1 is None:
            continue
        nxt = d.cycles[j + 1] if j + 1 < len(d.cycles) else None
        if nxt is not None and (nxt.session != c.session or nxt.boot != c.boot):
            nxt = None
        st = d.state("", c.i1, c, c.i1, c.w1, c.t1, names)
        st.lo, st.cycles = c.w1, c.n + 1
        if nxt is not None and cond.value(st) and not d.unsettled(names, c, c.i1):
            yield V("ran-on", "the session went on at %.6f although its shut condition %s was true" % (nxt.t0 / 1e6, what))
            return
    for i, e in stops:
        if e["t"] >= h.plan["horizon"] * 1e6 or h.kind("sched_raise"):
            continue
        last = [c for c in d.cycles if c.i0 < i]
        if not last:
            continue
        c = last[-1]
        st = d.state("", i, c, i, e["w"], e["t"], names)
        st.lo, st.cycles = e["w"], c.n + 1
        if cond.value(st) is False:
            yield V("ended-early", "the session ended at %.6f although its shut condition %s was false" % (e["t"] / 1e6, what))
            return


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    for _, e in h.kind("sched_raise"):
        yield V("scheduler-died", "the scheduler ended with %s: %s" % (e["err"], e["msg"]), err=e["err"])
        return
    for _, e in h.kind("fcond_wrong"):
        yield V("condition-arguments", "the condition of task %s was given the task %s%s" % (
            e["owner"], e["got"], "" if e["session"] else " and another session"))
        return
    d = Decider(h, h.plan["config"].get("timezone", 0))
    h.decider = d
    for t in h.plan["tasks"]:
        yield from d.check(t["name"])
    if h.plan["end"].get("what"):
        yield from shut(h, d)


def stats(h):
    d = getattr(h, "decider", None)
    n = dict(d.n) if d else {}
    n["nontrivial"] = bool(d and d.n["certain_true"] and d.n["certain_false"])
    return n
