"""Source of properties.jsonl, MANIFEST.json and dst/checks/meta.json.

    python3 tools/props.py          (rewrites the three files)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

TASK, SCHED, SESS = "rocketry/core/task.py", "rocketry/core/schedule.py", "rocketry/session.py"


def prop(id, title, statement, over, text, why, files, mechanism, observe, nontrivial, note, runs=6000, deadline=85,
         truns=60000, tdeadline=800, state=None, assumptions=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, nontrivial=nontrivial, note=note,
                  runs={"quick": runs, "thorough": truns}, deadline={"quick": deadline, "thorough": tdeadline},
                  state=state or [], assumptions=list(assumptions)))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                   mechanism=mechanism, observe=[], state=[], reason=reason))


exec(open(os.path.join(HERE, "tools", "props_list.py")).read())


def line(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}


def main():
    for p in P + NA:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P + NA, key=lambda p: p["id"]):
            f.write(json.dumps(line(p)) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m dst.runner setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python -m dst.runner check %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python -m dst.runner check %s" % p["id"],
            "technique": "deterministic simulation with fault injection: seeded search over schedules, operations "
                         "and faults of the real scheduler in a simulated host; history checked against "
                         + p["note"][0],
            "level": "exploration",
            "level_note": p["note"][1] + " Trusts the simulator's models of threads, processes, queues and clocks "
                                         "(DESIGN.md, Seams). No claim beyond the explored seeds.",
        } for p in sorted(P, key=lambda p: p["id"])],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(NA, key=lambda p: p["id"])],
        "notes": "No hooks in /repo: every seam is a standard library entry point (time, threading, multiprocessing, "
                 "queue, asyncio selector, os.urandom, subprocess) replaced from /verif/dst/seams.py, or an extension "
                 "point of rocketry (run id function, hooks, log repository, conditions, time_func).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    with open(os.path.join(HERE, "dst", "checks", "meta.json"), "w") as f:
        json.dump({p["id"]: {"runs": p["runs"], "deadline": p["deadline"], "nontrivial": p["nontrivial"],
                             "assumptions": p["assumptions"]} for p in P}, f, indent=1)
        f.write("\n")


main()
