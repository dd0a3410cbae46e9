# survey.py PROP SEED TIER N: run N cases without stopping; count violation kinds, keep the smallest case of each in /tmp/survey_PROP_<kind>.json
import sys,importlib,json,collections,os
sys.path[:0]=['/verif/lib','/verif/checks']
import core
p,seed,tier,n=sys.argv[1:5]
c=importlib.import_module(p.lower()).CHECK; core._check=c
c.bin=core.B.build(c.targets) if c.targets else core.B.sync_locked() or {}
c.prepare()
import multiprocessing as mp
cnt=collections.Counter(); best={}; nt=0; errs=0; inc=collections.Counter(); tags=collections.Counter(); slow=[]
with mp.get_context('fork').Pool(8) as pool:
    for i,case,o,dt,err in pool.imap_unordered(core._work,[(i,seed,tier,None) for i in range(int(n))]):
        slow.append((dt,i))
        if err: errs+=1; print(err[-600:]); continue
        nt+=o.nontrivial; tags.update(o.tags)
        if o.inconclusive: inc[o.inconclusive]+=1
        for k in set(v.kind for v in o.violations):
            cnt[k]+=1
            if k not in best or c.size(case)<best[k][0]:
                best[k]=(c.size(case),i,[repr(v) for v in o.violations if v.kind==k][0][:300]); json.dump({'property':p,'kind':k,'case':case},open('/tmp/survey_%s_%s.json'%(p,k.replace('/','_').replace(':','_')),'w'))
slow.sort(); print('nontrivial',nt,'errors',errs,'inconclusive',dict(inc),'time med %.2f max %.2f (%d)'%(slow[len(slow)//2][0],*slow[-1])); 
if len(sys.argv)>5: print(dict(tags))
for k,v in cnt.most_common(): print(v,k,best[k])
