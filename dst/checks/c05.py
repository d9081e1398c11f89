"""C05 parameters: every execution gets the parameters of its own level, and the latest return value."""
import bisect
import re

from .. import gen as G
from ..hist import V, died

KEYS = ("a", "b", "c")


def value(rng, p, where, producers, execs=("thread",)):
    """A plain value or an argument; `where` makes the plain ones unique."""
    r = rng.random()
    if r < 0.45:
        return "%s!%d" % (where, rng.randint(0, 10 ** 6))
    if r < 0.7:
        return {"expr": "Return('%s', default='none')" % rng.choice(producers)}
    if r < 0.78:
        return {"expr": "Arg('%s', default='noarg')" % rng.choice(("s", "q", "zz"))}
    if r < 0.9:
        mat = rng.choice([None, None, "pre", "post"])
        key = "k%d" % rng.randint(0, 3)
        return {"expr": "FuncArg(param_func, key=%r%s)" % (key, ", materialize=%r" % mat if mat else "")}
    if r < 0.95:
        return {"expr": rng.choice(["TaskArg()", "TaskArg('t0')"])}
    if "process" in execs:
        return {"expr": "EnvArg('DST_NOT_SET', default='noenv')"}
    return {"expr": "FuncArg(param_ret)"}


def gen(rng, tier):
    p = G.base(rng, 4, 9, tier)
    p["show_x"] = p["show_params"] = True
    p["config"]["multilaunch"] = rng.random() < 0.3
    p["config"]["max_process_count"] = 8
    p["config"]["param_materialize"] = rng.choice(["pre", "post"])
    n = rng.randint(2, 4)
    names = ["t%d" % i for i in range(n)]
    execs = [rng.choice(G.EXECS) for _ in names]
    p["params"] = {k: value(rng, p, "session-" + k, names, execs) for k in KEYS if rng.random() < 0.5}
    p["params"]["s"] = value(rng, p, "session-s", names, execs) if rng.random() < 0.5 else "plain-s"
    if isinstance(p["params"]["s"], dict) and "Arg('" in p["params"]["s"]["expr"] and "Func" not in p["params"]["s"]["expr"]:
        p["params"]["s"] = "plain-s"        # (an argument which names itself)
    if isinstance(p["params"]["s"], dict) and "FuncArg" in p["params"]["s"]["expr"]:
        p["params"]["s"] = "plain-s"
    p["params"]["unused"] = "unused"
    for i, name in enumerate(names):
        ex = execs[i]
        t = G.task(rng, name, ex, ["true", "every('0.4 s')", "every('1 s')", "every('1 s')", "false"])
        t["script"] = G.script(rng, execution=ex, outs=("ok", "ok", "ok", "ok", "raise", "inaction"),
                               poll=not t.get("async"), durs=(0, 0, 0.003, 0.05, 0.3, 1.0))
        for b in t["script"]:
            b.pop("on_flag", None)
        args = [a for a in t.get("args", []) if not t.get("async")] if ex == "thread" else []
        t["args"] = args + [["x", "'none'"]]
        t["params"] = {}
        for k in KEYS:
            if rng.random() < 0.75:
                v = value(rng, p, "sig-%s-%s" % (name, k), names, (ex,))
                t["args"].append([k, v["expr"] if isinstance(v, dict) else repr(v)])
                if rng.random() < 0.35:
                    t["params"][k] = value(rng, p, "task-%s-%s" % (name, k), names, (ex,))
        p["tasks"].append(t)
    th = 0
    nb = 0
    for _ in range(rng.randint(1, 7)):
        t = rng.choice(p["tasks"])
        at = G.op_time(rng, p)
        for j in range(rng.choice([1, 1, 2, 4])):
            th = (th + 1) % 3
            op = {"at": round(at + j * rng.choice([0, 0.0005, 0.05]), 4), "op": "run", "task": t["name"], "op_thread": th,
                  "params": {"x": "b%d" % nb}}
            nb += 1
            for k, _ in t["args"]:
                if k in KEYS and rng.random() < 0.5:
                    op["params"][k] = value(rng, p, "batch-%d-%s" % (nb, k), names, (G.exec_of(p, t),))
            if rng.random() < 0.3:
                op["as_dict"] = True
            p["ops"].append(op)
    for _ in range(rng.choice([0, 1, 3])):
        k = rng.choice(KEYS + ("s", "q"))
        v = value(rng, p, "set-" + k, names, execs) if k in KEYS else "set-%s!%d" % (k, rng.randint(0, 10 ** 6))
        p["ops"].append({"at": G.op_time(rng, p), "op": "set_param", "key": k, "value": v, "op_thread": 3})
    p["ops"].sort(key=lambda o: o["at"])
    G.aim(rng, p)
    G.clock_faults(rng, p, 0.1)
    G.child_faults(rng, p, 0.15)
    if rng.random() < 0.15:
        p["sessions"] = 2
        p["end"] = {"mode": "shut_down"}
    p["config"]["silence_task_prerun"] = True
    return p


class Register:
    """A value several writers set: which values may a read in an interval of events see?"""

    def __init__(self, initial):
        self.writes = [(-2, -1, initial)]

    def add(self, i0, i1, v):
        self.writes.append((i0, i1, v))

    def seen(self, a, b):
        # (a write is overwritten for sure by one which began after it ended and ended before the read began)
        last = max((i0 for i0, i1, _ in self.writes if i1 < a), default=-2)
        return [v for i0, i1, v in self.writes if i0 < b and not (i1 < last)]


def oracle(h):
    if h.aborted in ("lines", "switches") or h.kind("crash"):
        return
    yield from died(h)
    INF = 1 << 60
    # what the tasks returned, and when others may see it
    rets = {}
    for t in h.plan["tasks"]:
        rets[t["name"]] = Register(None)
    for inv in h.invs:
        if inv.out != "ok" or inv.rid not in h.runs:
            continue
        r = h.runs[inv.rid]
        ends = [i for i, e in r.logs if e["action"] != "run" and i > inv.idx1]
        rets[r.task].add(inv.idx1, ends[0] if ends else INF, inv.ret)
    # what the session parameters were
    sess = {k: Register(v) for k, v in h.plan["params"].items()}
    done = {e["n"]: i for i, e in h.kind("op_done")}
    batch = {}
    for idx, e in h.kind("op"):
        if e["name"] == "set_param":
            sess.setdefault(e["key"], Register(MISSING)).add(idx, done.get(e["n"], INF), e["value"])
        elif e["name"] == "run":
            batch[(e["task"], e["params"]["x"])] = e["params"]
    evals = {}
    for idx, e in h.kind("param"):
        evals[(e["key"], e["n"])] = (idx, e)
    marks = sorted(i for k in ("cycle", "hook_startup", "hook_shutdown", "cycle_end") for i, _ in h.kind(k))
    used = {}
    h.n = {"checked": 0, "args": 0, "session": 0, "batch": 0}

    def begin(r):
        j = bisect.bisect_left(marks, r.idx)
        return marks[j - 1] if j else 0

    def cands(v, a, b, r, depth=0):
        """The values which an argument may have had between events a and b."""
        if not isinstance(v, dict):
            return [v]
        x = v["expr"]
        m = re.fullmatch(r"Return\('(\w+)', default='none'\)", x)
        if m or x == "FuncArg(param_ret)":
            return ["none" if y is None else y for y in rets[m.group(1) if m else "t0"].seen(a, b)]
        m = re.fullmatch(r"Arg\('(\w+)', default='noarg'\)", x)
        if m:
            out = []
            reg = sess.get(m.group(1))
            for y in reg.seen(a, b) if reg is not None else [MISSING]:
                out += ["noarg"] if y is MISSING else cands(y, a, b, r, depth + 1)
            return out
        if x == "TaskArg()":
            return ["<task %s>" % r.task]
        if x == "TaskArg('t0')":
            return ["<task t0>"]
        if x.startswith("EnvArg"):
            return ["noenv"]
        return [Fresh(x)]

    for r in h.runs.values():
        spec = h.spec(r.task)
        args = dict((k, d) for k, d in spec["args"])
        b = batch.get((r.task, r.x), {})
        if not r.invs:
            if r.terminals and r.terminals[0]["action"] == "fail" and r.proc_fate != "crashed":
                yield V("not-executed", "run %s of task %s failed before its function was called though all of its "
                        "parameters have values" % (r.rid, r.task), task=r.task)
            continue
        inv = r.invs[0]
        a0, a1 = begin(r), inv.idx0
        for k in KEYS:
            if k not in args:
                if k in inv.params:
                    yield V("extra", "the function of %s got the parameter %s which it does not take" % (r.task, k))
                continue
            d = args[k]
            sig = {"expr": d} if not d.startswith("'") else None
            if k in b:
                where, want = "batch", cands(b[k], a0, a1, r)
            elif k in spec["params"]:
                where, want = "task", cands(spec["params"][k], a0, a1, r)
            elif sig:
                where, want = "function", cands(sig, a0, a1, r)
            else:
                where, want = "session", []
                reg = sess.get(k)
                for y in reg.seen(a0, a1) if reg is not None else [MISSING]:
                    want += [d.strip("'")] if y is MISSING else cands(y, a0, a1, r)
            got = inv.params.get(k)
            h.n["checked"] += 1
            if where in h.n:
                h.n[where] += 1
            if got in want:
                continue
            fresh = [w for w in want if isinstance(w, Fresh)]
            ok = False
            for w in fresh:
                m = re.fullmatch(r"pv-(\w+)-(\d+)", str(got))
                if not m or "key='%s'" % m.group(1) not in w.expr:
                    continue
                ok = True
                h.n["args"] += 1
                idx, e = evals[(m.group(1), int(m.group(2)))]
                if (m.group(1), m.group(2)) in used and used[(m.group(1), m.group(2))] != (r.rid, k):
                    yield V("stale", "the value %s of a function argument was given to two executions (%s and %s)"
                            % (got, used[(m.group(1), m.group(2))], (r.rid, k)))
                used[(m.group(1), m.group(2))] = (r.rid, k)
                if not a0 < idx < a1:
                    yield V("stale", "run %s of task %s got the value %s of a function argument, made at another time"
                            % (r.rid, r.task, got))
                mat = re.search(r"materialize='(\w+)'", w.expr)
                mat = mat.group(1) if mat else h.plan["config"]["param_materialize"]
                if r.exec == "process" and e["child"] != (mat == "post"):
                    yield V("materialize", "the function argument %s of task %s was evaluated in the %s process "
                            "(materialize=%r)" % (k, r.task, "child" if e["child"] else "main", mat))
            if not ok:
                yield V("value", "run %s of task %s got %s=%r; its %s level says %s"
                        % (r.rid, r.task, k, got, where, [str(w) for w in want][:4]), task=r.task)


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class Fresh:
    def __init__(self, expr):
        self.expr = expr

    def __eq__(self, other):
        return False

    def __str__(self):
        return self.expr

    __hash__ = None


def stats(h):
    n = dict(getattr(h, "n", {}))
    n["nontrivial"] = n.get("checked", 0) > 5
    return n
