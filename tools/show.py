import json,sys
d=json.load(open(sys.argv[1])); c=d.get('case',d); print(d.get('messages'))
for rd in c['rads']:
    for n in rd['nocs']: print(n)
    print(rd['aclk'],rd['mclk'])
    for m in rd['mods']: print({k:v for k,v in m.items()})
print({k:[(x[0],x[1]) for x in v] for k,v in c.get('sends',{}).items()}, c['v'], c.get('ir'))
