"""Seeded search, minimisation, replay and evidence.

    python -m dst.runner check C01            quick or thorough, by VERIF_TIER
    python -m dst.runner worker ...           (internal)
    python -m dst.runner replay FILE          re-execute a replay file
    python -m dst.runner selftest [C01 ...]   determinism: same seed, same history
"""
import copy
import importlib
import json
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get("DST_PYTHON") or (
    "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
REPO = os.environ.get("DST_REPO", "/repo")


def load_check(pid):
    return importlib.import_module("dst.checks.%s" % pid.lower())


def make_plan(check, pid, seed, index, tier):
    name = "%s-%s-%s" % (pid, seed, index)
    plan = check.gen(random.Random(name), tier)
    plan["seed"] = name
    plan = json.loads(json.dumps(plan))
    return plan


# ------------------------------------------------------------------ one execution
def execute(check, plan, replay=None):
    from . import world
    from .hist import History
    from .kernel import Decisions
    p = copy.deepcopy(plan)
    dec = None
    if replay is not None:
        dec = Decisions(seed="x", replay=replay)
    w = world.World(p, dec or _decisions(p))
    if hasattr(check, "prepare"):
        check.prepare(w)
    w.run()
    h = History(w)
    if w.k.abort == "realtime":
        return w, h, []
    viol = list(check.oracle(h))
    return w, h, viol


def _decisions(plan):
    from .kernel import Decisions
    sched = plan.get("sched", {})
    return Decisions(seed="sched-%s" % sched.get("seed", plan["seed"]),
                     mean_lines=sched.get("mean_lines", 0), stick=sched.get("stick", 0.5),
                     replay=sched.get("replay"))


# ------------------------------------------------------------------ known findings
def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == pid]


def known_match(known, v):
    for e in known:
        m = e["match"]
        if m.get("rule") != v["rule"]:
            continue
        if all(v.get(k) == x for k, x in m.items() if k != "rule"):
            return e
    return None


# ------------------------------------------------------------------ minimisation
def minimise(check, plan, w, rule, budget=60.0):
    """Smaller plan and fewer scheduling decisions which still break the same rule."""
    t_end = time_real() + budget
    best = copy.deepcopy(plan)
    rep = {"picks": list(w.k.dec.picks), "gaps": list(w.k.dec.gaps)}
    best_rep = None          # None: the seeded decisions of the plan

    def fails(p, r=None):
        if time_real() > t_end:
            return None
        try:
            w2, h2, viol = execute(check, p, r)
        except Exception:
            return None
        return w2 if any(v["rule"] == rule for v in viol) else None

    # 1. plan level (the seeded schedule is kept)
    changed = True
    while changed and time_real() < t_end:
        changed = False
        for cand in shrink_plan(best):
            w2 = fails(cand)
            if w2 is not None:
                best = cand
                rep = {"picks": list(w2.k.dec.picks), "gaps": list(w2.k.dec.gaps)}
                changed = True
                break
            if time_real() > t_end:
                break
    # 2. decisions: as few deviations from "the running thread continues" as possible
    if fails(best, rep) is not None:
        best_rep = rep
        # truncate, then zero out chunks
        for key in ("gaps", "picks"):
            seq = best_rep[key]
            n = len(seq)
            size = max(1, n // 2)
            while size >= 1 and time_real() < t_end:
                i = 0
                while i < len(seq) and time_real() < t_end:
                    if any(seq[i:i + size]):
                        cand = seq[:i] + ([0] * len(seq[i:i + size]) if key == "picks" else
                                          [sum(seq[i:i + size])]) + seq[i + size:]
                        r = dict(best_rep)
                        r[key] = cand
                        if len(cand) != len(seq) or any(seq[i:i + size]):
                            w2 = fails(best, r)
                            if w2 is not None:
                                best_rep = r
                                seq = cand
                                if key == "gaps":
                                    i += 1
                                    continue
                    i += size
                if size == 1:
                    break
                size //= 2
                if size < max(1, n // 64) :
                    break
        while best_rep["picks"] and best_rep["picks"][-1] == 0:
            best_rep["picks"].pop()
    return best, best_rep


def shrink_plan(plan):
    """Candidates, the boldest first."""
    for key in ("faults", "ops"):
        items = plan.get(key, [])
        if len(items) > 1:
            p = copy.deepcopy(plan)
            p[key] = []
            yield p
    for key in ("faults", "ops"):
        for i in range(len(plan.get(key, []))):
            p = copy.deepcopy(plan)
            del p[key][i]
            yield p
    used = repr([t for t in plan["tasks"]]) + repr(plan.get("ops")) + repr(plan.get("keep"))
    for i, t in enumerate(plan["tasks"]):
        if len(plan["tasks"]) > 1 and used.count("'%s'" % t["name"]) <= 1:
            p = copy.deepcopy(plan)
            del p["tasks"][i]
            yield p
    for i, t in enumerate(plan["tasks"]):
        if len(t.get("script") or []) > 1:
            for s in t["script"]:
                p = copy.deepcopy(plan)
                p["tasks"][i]["script"] = [s]
                yield p
    if plan.get("horizon", 0) > 1 and not plan.get("fixed_horizon"):
        for f in (0.25, 0.5, 0.8):
            p = copy.deepcopy(plan)
            p["horizon"] = round(plan["horizon"] * f, 3)
            if p.get("end", {}).get("mode") == "shut_cond":
                p["end"]["at"] = p["horizon"]
            yield p
    if plan.get("sched", {}).get("mean_lines"):
        p = copy.deepcopy(plan)
        p["sched"]["mean_lines"] = 0
        yield p


def time_real():
    mod = sys.modules.get("dst.seams")
    if mod is not None:
        return mod._real["monotonic"]()
    return time.monotonic()


# ------------------------------------------------------------------ worker
def worker(argv):
    pid, seed, tier, start, step, count, deadline = argv
    start, step, count, deadline = int(start), int(step), int(count), float(deadline)
    import gc
    import threading
    check = load_check(pid)
    known = load_known(pid)
    out = sys.stdout
    from . import world, seams         # noqa: F401
    t0 = time_real()
    done = 0
    for n in range(count):
        idx = start + n * step
        if time_real() - t0 > deadline:
            break
        plan = make_plan(check, pid, seed, idx, tier)
        t1 = time_real()
        out.write(json.dumps({"begin": idx}) + "\n")
        out.flush()
        w, h, viol = execute(check, plan)
        done += 1
        res = {"run": idx, "crc": "%08x-%08x" % (w.k.crc, w.k.icrc), "us": w.k.us,
               "switches": w.k.switches, "preempts": w.k.preempts, "lines": w.k.lines,
               "faults": w.k.faults, "abort": w.k.abort, "wall": round(time_real() - t1, 4),
               "events": len(w.k.events), "inter": "%08x" % w.k.icrc,
               "picks": len(w.k.dec.picks),
               "invs": len(h.invs), "logs": len(h.logs), "boots": w.boot_no,
               "stats": check.stats(h) if hasattr(check, "stats") else {}}
        new = []
        for v in viol:
            e = known_match(known, v)
            if e is not None:
                res.setdefault("known", []).append(e["id"])
            else:
                new.append(v)
        if new:
            v = new[0]
            res["violation"] = v
            if os.environ.get("DST_NO_MIN"):
                best, rep = plan, None
            else:
                best, rep = minimise(check, plan, w, v["rule"],
                                     budget=float(os.environ.get("DST_MIN_BUDGET", "45")))
            path = write_replay(check, pid, seed, idx, plan, best, rep, v)
            res["replay"] = path
            out.write(json.dumps(res) + "\n")
            out.flush()
            break
        out.write(json.dumps(res) + "\n")
        out.flush()
        if n % 20 == 19:
            gc.collect()
    out.write(json.dumps({"done": done}) + "\n")
    out.flush()
    os._exit(0)


def write_replay(check, pid, seed, idx, orig, best, rep, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, seed, idx))
    w, h, viol = execute(check, best, rep)
    same = [x for x in viol if x["rule"] == v["rule"]]
    if not same:        # cannot happen unless the minimiser ran out of its budget mid-way
        best, rep = orig, None
        w, h, viol = execute(check, best, rep)
        same = [x for x in viol if x["rule"] == v["rule"]] or [v]
    events = w.k.events
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "index": idx, "violation": same[0],
                   "crc": "%08x-%08x" % (w.k.crc, w.k.icrc), "plan": best, "decisions": rep,
                   "trace": [e for e in events if e["k"] not in ("cycle", "cycle_end")][-400:]}, f, indent=1,
                  default=str)
    return path


def replay(argv):
    path = argv[0]
    with open(path) as f:
        data = json.load(f)
    check = load_check(data["property"])
    w, h, viol = execute(check, data["plan"], data["decisions"])
    crc = "%08x-%08x" % (w.k.crc, w.k.icrc)
    same = [v for v in viol if v["rule"] == data["violation"]["rule"]]
    print("replayed %s: history %s (%s)" % (path, crc, "identical" if crc == data["crc"] else
                                            "recorded " + data["crc"]))
    if "-v" in argv:
        for e in w.k.events:
            if e["k"] not in ("cycle", "cycle_end"):
                print("   ", json.dumps(e, default=str))
    for v in viol:
        print("  %s: %s" % (v["rule"], v["msg"]))
    sys.stdout.flush()
    os._exit(1 if same else 0)


# ------------------------------------------------------------------ orchestration
def env_for_workers():
    env = dict(os.environ)
    env.update(TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONUNBUFFERED="1")
    return env


def check_cmd(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = check_meta(pid)
    nrun = int(os.environ.get("DST_RUNS") or meta["runs"][tier])
    njobs = int(os.environ.get("DST_JOBS") or min(8, os.cpu_count() or 1))
    deadline = float(os.environ.get("DST_DEADLINE") or meta["deadline"][tier])
    t0 = time.time()
    procs = []
    import selectors
    import tempfile
    sel = selectors.DefaultSelector()
    errdir = tempfile.mkdtemp(prefix="dst-err-")
    for j in range(njobs):
        err = open(os.path.join(errdir, "%d" % j), "w+")
        p = subprocess.Popen(
            [PY, "-m", "dst.runner", "worker", pid, str(seed), tier, str(j), str(njobs),
             str((nrun - j + njobs - 1) // njobs), str(deadline)],
            cwd=VERIF, env=env_for_workers(), stdout=subprocess.PIPE, stderr=err, text=True)
        p.err = err
        p.results = []
        p.begun = None
        p.last = time.time()
        procs.append(p)
        sel.register(p.stdout, selectors.EVENT_READ, p)
    results = []
    violation = None
    hung = []
    errors = []
    open_ = set(procs)
    hard = time.time() + deadline + 150
    grace = None
    while open_:
        for key, _ in sel.select(timeout=1.0):
            p = key.data
            line = key.fileobj.readline()
            if not line:
                sel.unregister(key.fileobj)
                open_.discard(p)
                p.wait()
                if p.returncode not in (0, -9, -15) or p.begun is not None:
                    p.err.seek(0)
                    if p.returncode not in (-9, -15):
                        errors.append(p.err.read()[-2000:])
                continue
            p.last = time.time()
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "begin" in d:
                p.begun = d["begin"]
            elif "run" in d:
                p.begun = None
                results.append(d)
                if "violation" in d and violation is None:
                    violation = d
                    grace = time.time() + 0.5
            elif "done" in d:
                p.begun = None
        now = time.time()
        for p in list(open_):
            if now - p.last > 260 and p.begun is not None:
                hung.append(p.begun)
                p.kill()
        if now > hard or (grace is not None and now > grace):
            for p in open_:
                p.kill()
    import shutil
    shutil.rmtree(errdir, ignore_errors=True)
    wall = time.time() - t0
    if violation is not None:
        # the report is only believed when a fresh process reproduces it
        r = subprocess.run([PY, "-m", "dst.runner", "replay", violation["replay"]], cwd=VERIF,
                           env=env_for_workers(), capture_output=True, text=True, timeout=400)
        reproduced = r.returncode == 1
        if not reproduced:
            print("note: %s did not reproduce in a fresh process: %s" % (violation["replay"], r.stdout + r.stderr[-500:]))
            violation = None
    write_evidence(pid, tier, seed, meta, results, wall, violation, hung, errors)
    known = {}
    for d in results:
        for e in d.get("known", []):
            known[e] = known.get(e, 0) + 1
    for e in load_known(pid):
        print("KNOWN-FINDING: property=%s %s%s" % (
            pid, e["what"], " (seen in %d runs)" % known[e["id"]] if e["id"] in known else ""))
    n = len(results)
    print("%s: %d simulated runs, %.0f s simulated, %d switches, %d preemptions, %.1f s" % (
        pid, n, sum(d["us"] for d in results) / 1e6, sum(d["switches"] for d in results),
        sum(d["preempts"] for d in results), wall))
    if errors:
        print("errors in %d workers:\n%s" % (len(errors), errors[0]))
    if hung:
        print("runs which did not answer: %s" % hung)
    if violation is not None:
        v = violation["violation"]
        print("%s: %s" % (v["rule"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
        return 1
    if n == 0:
        print("no run finished")
        return 2
    return 0


def check_meta(pid):
    with open(os.path.join(HERE, "checks", "meta.json")) as f:
        return json.load(f)[pid]


def write_evidence(pid, tier, seed, meta, results, wall, violation, hung, errors):
    faults = {}
    stats = {}
    for d in results:
        for k, v in d["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in d["stats"].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                stats[k] = stats.get(k, 0) + v
    aborts = {}
    for d in results:
        if d["abort"]:
            aborts[d["abort"]] = aborts.get(d["abort"], 0) + 1
    nontrivial = [d for d in results if d["stats"].get("nontrivial", d["invs"] > 0)]
    distinct = len({d["crc"] for d in nontrivial})
    sample = []
    for d in results[:3]:
        sample.append({"index": d["run"], "history": d["crc"], "simulated_s": round(d["us"] / 1e6, 3),
                       "task_executions": d["invs"], "log_records": d["logs"],
                       "boots": d["boots"], "switches": d["switches"], "faults": d["faults"],
                       "checked": d["stats"],
                       "plan": make_plan_light(pid, seed, d["run"], tier)})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": distinct,
            "rule": "One case = one simulated deployment (plan and schedule derived from the seed and the "
                    "run index) executed to its end. Distinct: the CRC of the complete history "
                    "(all events with their times) together with the sequence of scheduling decisions differs. "
                    "Non-trivial: " + meta["nontrivial"],
            "samples": sample,
            "simulated_runs_per_hour": int(len(results) / wall * 3600) if wall else 0,
            "simulated_seconds": round(sum(d["us"] for d in results) / 1e6, 3),
            "thread_switches": sum(d["switches"] for d in results),
            "scheduling_decisions_with_alternatives": sum(d["picks"] for d in results),
            "line_preemptions": sum(d["preempts"] for d in results),
            "distinct_interleavings": len({d["inter"] for d in results}),
            "interleaving_measure": "CRC of the sequence of threads chosen wherever more than one could run",
            "task_executions": sum(d["invs"] for d in results),
            "log_records": sum(d["logs"] for d in results),
            "scheduler_boots": sum(d["boots"] for d in results),
            "faults_injected": faults,
            "obligations_checked": stats,
            "runs_ended_by_a_limit": aborts,
            "runs_without_answer": len(hung),
            "real_components": ["rocketry (scheduler, session, tasks, conditions, parameters, log adapter)",
                                "redbird repositories", "pydantic models", "asyncio tasks and futures",
                                "logging", "threading.Event/Condition/RLock"],
            "stubbed_components": meta.get("stubs", [
                "clock (virtual)", "event loop selector (virtual time)",
                "OS threads (baton passing, seeded choice)", "multiprocessing.Process and Queue "
                "(in-process, fork or pickling semantics, delayed feeder, killable)",
                "threading.Lock (seeded)", "os.urandom (seeded)", "os.execl, subprocess.Popen"]),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation is not None else 0,
    }
    if os.environ.get("DST_NO_EVIDENCE"):
        return
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def make_plan_light(pid, seed, idx, tier):
    """The generators need nothing of the simulator: they can run here."""
    try:
        return make_plan(load_check(pid), pid, seed, idx, tier)
    except Exception as exc:
        return repr(exc)


def selftest(argv):
    """Same seed, same history: twice in one process, after other runs, and with other hash seeds."""
    pids = argv or sorted(json.load(open(os.path.join(HERE, "checks", "meta.json"))))
    bad = 0
    for pid in pids:
        outs = []
        for hs in ("0", "1", "random"):
            env = env_for_workers()
            env["PYTHONHASHSEED"] = hs
            r = subprocess.run([PY, "-m", "dst.runner", "crcs", pid, "5"], cwd=VERIF, env=env,
                               capture_output=True, text=True)
            outs.append(r.stdout.strip())
            if r.returncode:
                print(r.stderr[-1000:])
        ok = len(set(outs)) == 1 and outs[0]
        bad += not ok
        print(pid, "deterministic" if ok else "NOT DETERMINISTIC", outs[0] if ok else outs)
    return 1 if bad else 0


def crcs(argv):
    pid, n = argv[0], int(argv[1])
    check = load_check(pid)
    res = []
    for rnd in range(2):
        row = []
        for i in (range(n) if rnd == 0 else reversed(range(n))):
            w, h, viol = execute(check, make_plan(check, pid, 991, i, "quick"))
            row.append((i, w.k.crc, w.k.icrc, w.k.switches))
        res.append(sorted(row))
    if res[0] != res[1]:
        print("differs within one process", res)
    print(res[0])
    sys.stdout.flush()
    os._exit(0)


def main():
    cmd, argv = sys.argv[1], sys.argv[2:]
    if cmd == "check":
        sys.exit(check_cmd(argv))
    if cmd == "worker":
        worker(argv)
    elif cmd == "replay":
        replay(argv)
    elif cmd == "setup":
        # nothing to build: the checks import /repo's working tree
        r = subprocess.run([PY, "-c", "import dst.world"], cwd=VERIF, env=env_for_workers())
        sys.exit(r.returncode)
    elif cmd == "selftest":
        sys.exit(selftest(argv))
    elif cmd == "crcs":
        crcs(argv)


if __name__ == "__main__":
    main()
