"""Pieces of plans which several checks generate.  Nothing here imports rocketry."""

EXECS = ("async", "thread", "process", "main")


def base(rng, lo=6.0, hi=20.0, tier="quick", execs=EXECS):
    """A deployment without tasks: clock, configuration, schedule policy."""
    k = 2.0 if tier == "thorough" else 1.0
    horizon = round(rng.uniform(lo, hi * k), 3)
    plan = {
        "t0": round(rng.choice([1_577_836_790.0, 1_600_000_000.0, 1_583_020_795.0,
                                1_640_995_190.0]) + rng.uniform(0, 3), 6),
        "horizon": horizon,
        "grace": 60,
        "lat_max": rng.choice([5, 20, 20, 200, 3000]),
        "start_method": "spawn" if rng.random() < 0.15 else "fork",
        "config": {
            "cycle_sleep": rng.choice([0.02, 0.1, 0.1, 0.1, 0.3]),
            "execution": rng.choice(execs),
            "silence_task_prerun": False, "silence_task_logging": False,
            "silence_cond_check": False,
        },
        "tasks": [], "conds": {}, "ops": [], "faults": [], "hooks": [],
        "sched": {"mean_lines": rng.choice([0, 0, 0, 2000, 300, 60, 25]),
                  "stick": rng.choice([0.2, 0.5, 0.8, 0.95])},
        "end": {"mode": "shut_down"},
        "repo": {"kind": "memory", "model": rng.choice(["MinimalRunRecord", "LogRecord", "RunRecord",
                                                        "TaskRunRecord", "TaskRunRecord"])},
    }
    plan["repo"]["model"] = rng.choice(["MinimalRunRecord", "RunRecord", "TaskRunRecord"])
    if plan["config"]["cycle_sleep"] == 0.02 and horizon > 8:
        plan["config"]["cycle_sleep"] = 0.05
    if rng.random() < 0.05:
        plan["config"]["cycle_sleep"] = None
        plan["lat_max"] = 6000
        plan["sched"]["mean_lines"] = 0
    if rng.random() < 0.3:
        plan["entry"] = "serve"
    if rng.random() < 0.3:
        plan["end"] = {"mode": "shut_cond", "at": horizon}
    return plan


def script(rng, n=None, durs=(0, 0.01, 0.1, 0.35, 0.9, 2.0), outs=("ok", "ok", "ok", "raise", "inaction"),
           execution="thread", poll=True):
    out = []
    for _ in range(n or rng.randint(1, 4)):
        b = {"dur": rng.choice(durs), "out": rng.choice(outs)}
        if execution == "main":
            b["dur"] = rng.choice((0, 0, 0.01, 0.1, 0.25))
        if execution == "async":
            b["slices"] = rng.choice((1, 1, 3))
        if execution == "thread" and poll:
            b["poll"] = rng.choice((0.01, 0.05, 0.2))
            b["on_flag"] = rng.choice(("term", "term", "finish"))
        out.append(b)
    return out


def task(rng, name, execution=None, starts=("true",), **kw):
    t = {"name": name, "start": rng.choice(list(starts))}
    if execution is not None:
        t["execution"] = execution
    if execution == "async" or (execution in ("main", "thread", "process") and rng.random() < 0.2):
        t["async"] = True
    if t.get("async") and execution in ("thread", "process"):
        # coroutine functions sleep in a loop of their own
        pass
    if execution == "thread":
        t["args"] = [["flag", "TerminationFlag()"]]
    t["script"] = script(rng, execution=execution, poll=not t.get("async"))
    t.update(kw)
    return t


def exec_of(plan, t):
    g = plan.get("groups", {}).get(t.get("group"), {})
    return t.get("execution") or g.get("execution") or plan["config"]["execution"]


STARTS = ("true", "every('0.3 s')", "every('1 s')", "every('700 ms')", "every('2 s', based='finish')",
          "secondly", "every('1 s') & ~running", "retry(2) | every('2 s')")


def clock_faults(rng, plan, p=0.25, back=True):
    if rng.random() < p:
        n = rng.randint(1, 2)
        for _ in range(n):
            at = round(rng.uniform(0.5, plan["horizon"]), 3)
            by = rng.choice([0.5, 5, 70, 3700])
            if back and rng.random() < 0.5:
                by = -by
            plan["faults"].append({"kind": "clock_jump", "at": at, "by": by})
    if rng.random() < p:
        plan["faults"].append({"kind": "stall", "at": round(rng.uniform(0.5, plan["horizon"]), 3),
                               "by": rng.choice([0.2, 1.5, 8])})


def child_faults(rng, plan, p=0.3):
    procs = [t["name"] for t in plan["tasks"] if exec_of(plan, t) == "process"]
    if not procs:
        return
    if rng.random() < p:
        plan["faults"].append({"kind": "kill_child", "at": round(rng.uniform(0.3, plan["horizon"]), 3),
                               "pick": rng.randint(0, 3)})
    if rng.random() < p:
        plan["faults"].append({"kind": "freeze_child", "at": round(rng.uniform(0.3, plan["horizon"]), 3),
                               "pick": rng.randint(0, 3), "by": rng.choice([0.3, 2.5])})
    if rng.random() < p / 2:
        plan["faults"].append({"kind": "freeze_host", "at": round(rng.uniform(0.3, plan["horizon"]), 3),
                               "by": rng.choice([0.3, 2.5])})


def op_time(rng, plan):
    return round(rng.uniform(0.1, plan["horizon"]), 4)


def aim(rng, plan, p=0.5):
    """Some operations happen in the midst of a cycle, between two lines of the scheduler."""
    for op in plan["ops"]:
        if rng.random() < p:
            op["lines"] = rng.choice([rng.randint(0, 60), rng.randint(0, 400), rng.randint(0, 2000)])


# ------------------------------------------------------------------ long time scales
SCALES = {
    # scope: (cycle_sleep range, horizon range, unit)
    "second": ((0.02, 0.12), (4, 9), 1.0),
    "minute": ((0.7, 4.0), (240, 500), 60.0),
    "hour": ((25.0, 200.0), (4 * 3600, 9 * 3600), 3600.0),
    "day": ((500.0, 3000.0), (4 * 86400, 8 * 86400), 86400.0),
    "week": ((3 * 3600.0, 7 * 3600.0), (20 * 86400, 40 * 86400), 7 * 86400.0),
    "month": ((10 * 3600.0, 20 * 3600.0), (100 * 86400, 200 * 86400), 31 * 86400.0),
}
T0S = (1_577_836_790.0, 1_600_000_000.0, 1_583_020_795.0, 1_640_995_190.0, 1_582_934_300.0, 1_709_164_700.0,
       1_672_531_000.0, 1_614_556_000.0)


def scaled(rng, scope, tier="quick", execs=EXECS):
    """A deployment whose cycles are as far apart as its conditions allow."""
    p = base(rng, 5, 6, tier, execs)
    sleep, hor, unit = SCALES[scope]
    p["config"]["cycle_sleep"] = round(rng.uniform(*sleep), 3)
    p["horizon"] = round(rng.uniform(*hor), 3)
    p["t0"] = round(rng.choice(T0S) + rng.uniform(0, unit), 6)
    p["grace"] = max(60, int(40 * sleep[1]))
    p["lat_max"] = rng.choice([5, 20, 100])
    p["sched"]["mean_lines"] = rng.choice([0, 0, 3000, 600, 150])
    p["end"] = {"mode": "shut_down"}
    p["scale"] = unit
    p["config"]["timeout"] = 400 * 86400
    return p


def point(rng, scope, end=False):
    """A point in a scope, as the API takes it."""
    kind = rng.random()
    if scope == "second":
        x = rng.randint(0, 998)
        return x if kind < 0.6 else float(x) + 0.5
    if scope == "minute":
        x = rng.randint(0, 59)
        return x if kind < 0.5 else "%02d" % x if kind < 0.8 else "%02d.%03d" % (x, rng.randint(0, 999))
    if scope == "hour":
        x = rng.randint(0, 59)
        return x if kind < 0.5 else "%02d:%02d" % (x, rng.choice([0, 0, 30, 59]))
    if scope == "day":
        x = rng.randint(0, 23)
        return x if kind < 0.4 else "%02d:%02d" % (x, rng.choice([0, 0, 30, 59])) if kind < 0.9 else "%02d:%02d:%02d" % (
            x, rng.randint(0, 59), rng.randint(0, 59))
    if scope == "week":
        names = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
        full = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
        x = rng.randint(0, 6)
        return x + 1 if kind < 0.3 else names[x] if kind < 0.6 else full[x] if kind < 0.7 else "%s %02d:00" % (
            names[x], rng.randint(0, 23))
    x = rng.randint(1, 28) if rng.random() < 0.7 else rng.randint(28, 31)
    suffix = {1: "st", 2: "nd", 3: "rd", 21: "st", 22: "nd", 23: "rd", 31: "st"}.get(x, "th")
    return x if kind < 0.4 else "%d%s" % (x, suffix) if kind < 0.8 else "%d%s %02d:00" % (x, suffix, rng.randint(0, 23))


def window(rng, name, scope):
    """daily.between("10:00", "15:00") and the like."""
    how = rng.choice(["full", "between", "between", "between", "before", "after", "at", "on", "starting"])
    if how == "full":
        return name
    if how == "between":
        return "%s.between(%r, %r)" % (name, point(rng, scope), point(rng, scope, True))
    return "%s.%s(%r)" % (name, how, point(rng, scope))


def syntax(rng, plan, p=0.25):
    """Some tasks get their condition as a string."""
    if rng.random() < p:
        for t in plan["tasks"]:
            if rng.random() < 0.7:
                t["syntax"] = True
