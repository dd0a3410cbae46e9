"""python3-vt tools/shrinkcase.py PROP case.json kind out.json [secs] : shrink a failing case, keeping the violation kind."""
import sys, json, importlib
sys.path[:0] = ['/verif/lib', '/verif/checks']
import core
p, f, kind, out = sys.argv[1:5]
c = importlib.import_module(p.lower()).CHECK; core._check = c
c.bin = core.B.build(c.targets) if c.targets else core.B.sync_locked() or {}
c.prepare()
case = json.load(open(f)); case = case.get('case', case)
import multiprocessing as mp
with mp.get_context('fork').Pool(8) as pool:
    small, tried = core.do_shrink(c, case, kind, float(sys.argv[5]) if len(sys.argv) > 5 else 60, pool)
json.dump({'property': p, 'kind': kind, 'case': small}, open(out, 'w'))
print(c.size(case), '->', c.size(small), tried)
