import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for s in sorted(d['coverage']['scenarios'],key=lambda s:-s['wall_s']): print(s['name'],'paths',s['paths'],'q',s['queries'],'t',s['wall_s'])
print({k:v for k,v in d['coverage'].items() if isinstance(v,(int,float))}, d['wall_s'])
