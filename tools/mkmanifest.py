#!/usr/bin/env python3
"""Write MANIFEST.json from the checks and the list of properties."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
checks, targets = [], []
na = []
for p in props:
    f = V + "/checks/%s.py" % p.lower()
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
        continue
    c = importlib.import_module(p.lower()).CHECK
    for t in c.targets:
        t not in targets and targets.append(t)
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p,
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                   "technique": c.technique, "level": "exploration",
                   "level_note": c.level_note or ("search over generated inputs: about %d cases on every change, up to %d in depth; nothing outside the generated domain is covered" % (c.quick_n, c.thorough_n))})
m = {"version": 1, "setup_cmd": "python3-vt lib/build.py " + " ".join(targets),
     "hooks": {"guard": "", "enable": "", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds its harness from /repo's working tree (incrementally, under /verif/build), generates its cases from VERIF_SEED and exits 2 if the tree does not build."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks), "checks", len(na), "n/a")
except ImportError:
    pass
