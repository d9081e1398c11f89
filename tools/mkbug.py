"""mkbug.py FILE : FILE defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS.  Writes /verif/seeded/ID."""
import json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
S = "/tmp/mkbug.%d" % os.getpid()
shutil.rmtree(S, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
for f, a, b in ns["EDITS"]:
    p = os.path.join(S, f)
    s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True, check=True).stdout
open(d + "/patch.diff", "w").write(diff)
shutil.rmtree(S)
open(d + "/demo.py", "w").write(ns["DEMO"])
open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                                'PYTHONPATH=$PWD:$here PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print(d)
