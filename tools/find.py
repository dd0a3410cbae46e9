# find.py PROP SEED TIER predicate-substring-of-tag : rerun cases and print those with tag/inconclusive
import sys,importlib,random,json
sys.path[:0]=['/verif/lib','/verif/checks']
import core
p,seed,tier,what,n=sys.argv[1:6]
c=importlib.import_module(p.lower()).CHECK; core._check=c
c.bin=core.B.build(c.targets) if c.targets else {}
c.prepare()
import multiprocessing as mp
k=0
with mp.get_context('fork').Pool(8) as pool:
    for i,case,o,dt,err in pool.imap_unordered(core._work,[(i,seed,tier,None) for i in range(int(n))]):
        if o and (what in str(o.inconclusive) or what in o.tags):
            json.dump({'case':case},open('/tmp/found_%d.json'%i,'w')); print(i,o.inconclusive,o.tags,'/tmp/found_%d.json'%i); k+=1
            if k>5: break
