#!/usr/bin/env python3
"""mkseed.py ID PROP CASE.json NEEDS BREAKS: store the change in $BUG (a copy of /repo) as seeded/ID,
with a demonstration that replays CASE on the tree it is run in."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUG = os.environ.get("BUG", "/tmp/bug")
sid, prop, case, needs, breaks = sys.argv[1:6]
d = V + "/seeded/" + sid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", BUG, "diff"], capture_output=True, text=True).stdout
if diff.strip():
    open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if case != "-":
    c = json.load(open(case))
    json.dump({"property": prop, "case": c.get("case", c)}, open(d + "/case.json", "w"))
    k = d + "/kit"
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k + "/checks")
    os.makedirs(k + "/harness")
    ig = shutil.ignore_patterns("__pycache__", "*.pyc")
    shutil.copytree(V + "/lib", k + "/lib", ignore=ig)
    for f in os.listdir(V + "/harness"):
        if f.endswith((".cpp", ".hpp", ".h", ".py", ".cc")):
            shutil.copy(V + "/harness/" + f, k + "/harness/" + f)
    todo, done = [prop.lower()], set()
    while todo:                      # the check and the checks it imports
        m = todo.pop()
        if m in done or not os.path.exists(V + "/checks/%s.py" % m):
            continue
        done.add(m)
        shutil.copy(V + "/checks/%s.py" % m, k + "/checks/")
        for l in open(V + "/checks/%s.py" % m):
            if l.startswith(("import ", "from ")):
                todo += [w.strip(",") for w in l.split()[1:]]
    shutil.copy(V + "/check.py", k + "/check.py")
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# Builds the simulator from the tree it is run in (in a scratch directory) and
# replays one scenario against the property's oracle.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -r "$here/kit" "$W/kit"
export VERIF_REPO=$(pwd) VERIF_BUILD=$W/build PYTHONDONTWRITEBYTECODE=1
/opt/veriftools/pyvenv/bin/python "$W/kit/check.py" %s --replay "$here/case.json"
""" % prop)
    os.chmod(d + "/demo.sh", 0o755)
