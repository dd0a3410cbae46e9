#!/usr/bin/env python3
import argparse, importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import core

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("--n", type=int)
a = ap.parse_args()
m = importlib.import_module(a.prop.lower())
c = m.CHECK
if a.n:
    c.quick_n = c.thorough_n = a.n
sys.exit(core.main(c, a.tier, a.replay))
