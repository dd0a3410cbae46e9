#!/usr/bin/env python3
"""DESIGN.md = tools/design.md + the table of planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(V + "/tools/design.md").read().rstrip() + "\n\n| planted | check that catches it | needs | breaks |\n|---|---|---|---|\n"
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    o += "| %s | %s | %s | %s |\n" % (s, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))
open(V + "/DESIGN.md", "w").write(o)
