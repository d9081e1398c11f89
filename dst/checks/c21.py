"""C21 command tasks: each run executes exactly its command with its own arguments, and the exit code decides."""
import re

from .. import gen as G
from ..hist import V, died

STARTS = ("every('0.4 s')", "every('1 s')", "every('2 s', based='finish')", "true", "~started", "false", "retry(2) | every('3 s')")


def gen(rng, tier):
    p = G.base(rng, 3, 8, tier)
    p["config"]["multilaunch"] = rng.random() < 0.25
    p["config"]["silence_task_prerun"] = rng.random() < 0.5
    p["show_x"] = True
    p["params"] = {"g": "of-session"}
    p["commands"] = []
    p["config"]["restarting"] = "recall"
    for i in range(rng.randint(1, 4)):
        name = "c%d" % i
        word = "tool%d" % i
        t = {"name": name, "start": rng.choice(STARTS), "execution": rng.choice(G.EXECS)}
        if rng.random() < 0.6:
            t["command"] = [word, "--fast", "in put"][:rng.randint(1, 3)]
        else:
            t["command"] = rng.choice(["%s", "%s run all", "%s 'in put'"]) % word
            t["shell"] = rng.random() < 0.7
        if rng.random() < 0.6:
            t["argform"] = rng.choice(["-", "--", "short", "long"])
        if rng.random() < 0.2:
            t["cwd"] = "/some/where"
        if rng.random() < 0.7:
            t["params"] = {k: "v-%s" % k for k in rng.sample(["x", "y", "--z", "-w"], rng.randint(1, 3))}
        if rng.random() < 0.3:
            t["timeout"] = rng.choice([0.3, 0.7, "0.5 s", "never"])
        if rng.random() < 0.15:
            t["multilaunch"] = True
        script = []
        for _ in range(rng.randint(1, 4)):
            b = {"dur": rng.choice([0, 0.01, 0.2, 0.5, 1.2]), "rc": rng.choice([0, 0, 0, 0, 1, 2, 127, -9]),
                 "out": rng.choice(["out-", "text "]), "err": rng.choice(["", "bad"])}
            if t["execution"] in ("main", "async"):
                b["dur"] = min(b["dur"], rng.choice([0.2, 0.2, 1.2]))
            if rng.random() < 0.1:
                b = {"missing": True}
            script.append(b)
        p["commands"].append({"match": word, "script": script})
        if t["start"] == "false" or rng.random() < 0.4:
            for _ in range(rng.randint(1, 4)):
                p["ops"].append({"at": G.op_time(rng, p), "op": "run", "task": name, "op_thread": rng.randint(0, 1),
                                 "params": {"x": "@", **({"y": "own"} if rng.random() < 0.4 else {})}})
        p["tasks"].append(t)
    if rng.random() < 0.4:
        # what a command printed is its return value
        t = G.task(rng, "reader", rng.choice(["async", "thread", "main", "process"]), ("after_success('c0')",))
        t["args"] = [["v", "Return('c0', default='none')"]]
        t["script"] = [{}]
        t["async"] = False
        p["tasks"].append(t)
    names = [t["name"] for t in p["tasks"]]
    for _ in range(rng.choice([0, 0, 1, 2])):
        p["ops"].append({"at": G.op_time(rng, p), "op": "terminate", "task": rng.choice(names), "op_thread": 2})
    if rng.random() < 0.1:
        p["ops"].append({"at": G.op_time(rng, p), "op": "restart"})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p, 0.3)
    if rng.random() < 0.3:
        G.clock_faults(rng, p)
    G.child_faults(rng, p, 0.15)
    p["faults"] = [f for f in p["faults"] if f["kind"] not in ("freeze_host", "freeze_child")]
    if rng.random() < 0.15:
        p["sessions"] = 2
        p["end"] = {"mode": "shut_down"}
    return p


def _want(t, given):
    """The arguments a run adds to its command, in any order."""
    form = {"short": "-", "-": "-"}.get(t.get("argform"), "--")
    pars = {**t.get("params", {}), **given}
    return sorted(((k if k.startswith("-") else form + k), v) for k, v in pars.items())


def _split(t, args):
    """(command, added arguments) of what was executed."""
    cmd = t["command"]
    if isinstance(cmd, str):
        if not isinstance(args, str) or not args.startswith(cmd):
            return args, None
        rest = args[len(cmd):]
        found = re.findall(r' (\S+) "([^"]*)"', rest)
        if "".join(' %s "%s"' % x for x in found) != rest:
            return args, None
        return cmd, sorted(found)
    n = len(cmd)
    if isinstance(args, str) or args[:n] != cmd or (len(args) - n) % 2:
        return args, None
    rest = args[n:]
    return cmd, sorted(zip(rest[::2], rest[1::2]))


def oracle(h):
    if h.aborted in ("lines", "switches"):
        return
    yield from died(h)
    h.n = {"commands": 0, "with_args": 0, "failed": 0, "timed_out": 0, "read": 0}
    given = {e["params"]["x"]: e["params"] for _, e in h.kind("op") if e["name"] == "run" and e.get("params")}
    ended = bool(h.kind("host_exit"))
    starts, missing, exits = {}, {}, {}
    for i, e in h.kind("cmd_start"):
        starts.setdefault(e["rid"], []).append((i, e))
    for i, e in h.kind("cmd_missing"):
        missing.setdefault(e["rid"], []).append((i, e))
    for i, e in h.kind("cmd_exit"):
        exits[e["pid"]] = (i, e)
    spec = {t["name"]: t for t in h.plan["tasks"]}
    script = {c["match"]: c["script"] for c in h.plan["commands"]}
    outs = {}
    for r in h.runs.values():
        t = spec[r.task]
        if "command" not in t:
            continue
        who = "run %s of task %s (%s, started %.6f)" % (r.rid, r.task, r.exec, r.t / 1e6)
        mine = starts.get(r.rid, [])
        gone = missing.get(r.rid, [])
        word = (t["command"] if isinstance(t["command"], str) else t["command"][0]).split()[0]
        if len(mine) + len(gone) > 1:
            yield V("twice", "%s executed its command %d times" % (who, len(mine) + len(gone)), exec=r.exec)
        acts = [e["action"] for e in r.terminals]
        if not mine and not gone:
            if r.proc_fate is None and ended and "terminate" not in acts:
                yield V("not-executed", "%s did not execute its command (recorded as %s)" % (who, acts), exec=r.exec)
            continue
        i, e = (mine or gone)[0]
        h.n["commands"] += 1
        cmd, added = _split(t, e["args"])
        want = _want(t, given.get(r.x, {}))
        h.n["with_args"] += bool(want)
        if added is None or [tuple(x) for x in added] != want:
            yield V("arguments", "%s executed %r: the command is %r and its arguments %r" % (who, e["args"], t["command"], want),
                    exec=r.exec)
            continue
        if mine and (e["shell"] != bool(t.get("shell")) or e["cwd"] != t.get("cwd")):
            yield V("setting", "%s was executed with shell=%s, cwd=%r" % (who, e["shell"], e["cwd"]), exec=r.exec)
        if not ended or r.proc_fate == "crashed" or h.kind("crash"):
            continue
        # how it ended
        if gone:
            ok = {"fail"}
        else:
            beh = script[word][e["n"] % len(script[word])]
            x = exits.get(e["pid"])
            limit = t.get("timeout")
            limit = {"0.5 s": 0.5, "never": None}.get(limit, limit)
            over = limit is not None and beh["dur"] > limit
            if x is None:
                # the process of the task was terminated, its command not waited for
                if r.exec != "process" or r.proc_fate is None:
                    yield V("abandoned", "%s did not wait for its command" % who, exec=r.exec)
                continue
            took = (x[1]["t"] - e["t"]) / 1e6
            killed = x[1]["killed"]
            # (a stalled or busy machine notices the end and the timeout at the same time)
            lag = h.plan["lat_max"] >= 3000 or any(f["kind"] == "stall" for f in h.plan["faults"])
            if over:
                h.n["timed_out"] += 1
                if not lag and took > limit + 0.02 + 30 * h.plan["lat_max"] / 1e6:
                    yield V("timeout", "the command of %s went on for %.3f s, its timeout is %s" % (who, took, t["timeout"]), exec=r.exec)
            elif killed:
                yield V("cut", "the command of %s was stopped after %.3f s, it takes %s s" % (who, took, beh["dur"]), exec=r.exec)
                continue
            ok = {"fail"} if killed or beh["rc"] else {"success"}
            if not beh["rc"] and not killed and r.task == "c0":
                outs["%s%d" % (beh["out"], e["n"])] = x[0]
        if r.exec == "process" and r.proc_fate == "terminated":
            ok = ok | {"terminate"}
        h.n["failed"] += "fail" in acts
        if len(acts) != 1 or acts[0] not in ok:
            yield V("outcome", "%s is recorded as %s, its command tells %s" % (who, acts, "/".join(sorted(ok))), exec=r.exec)
    for v in h.invs:
        if v.task == "reader":
            got = v.params["v"]
            h.n["read"] += 1
            if got not in outs or outs[got] > v.idx0:
                yield V("output", "the output of the command of c0 was read as %r" % got)


def stats(h):
    n = dict(getattr(h, "n", {}))
    n["nontrivial"] = n.get("with_args", 0) > 1
    return n
