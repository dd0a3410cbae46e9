"""python3-vt tools/rundir.py PROP case.json dir : execute one case in dir and keep the files."""
import sys, json, importlib, os
sys.path[:0] = ['/verif/lib', '/verif/checks']
import core
c = importlib.import_module(sys.argv[1].lower()).CHECK; core._check = c
c.bin = core.B.build(c.targets) if c.targets else core.B.sync_locked() or {}
c.prepare()
case = json.load(open(sys.argv[2])); case = case.get('case', case)
os.makedirs(sys.argv[3], exist_ok=True)
o = c.execute(case, sys.argv[3])
print(o.violations, o.inconclusive, c.bin)
