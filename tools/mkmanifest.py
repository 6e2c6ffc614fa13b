#!/usr/bin/env python3
# writes MANIFEST.json from the table below and properties.jsonl
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
claimed={}
def claim(id,technique,note): claimed[id]=(technique,note)
na={}
exec(open(here+'/tools/claims.py').read())
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for p in props:
    if p in claimed:
        t,n=claimed[p]
        m["checks"].append({"property":p,"quick_cmd":"bash run.sh "+p,"thorough_cmd":"VERIF_TIER=thorough bash run.sh "+p,"technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":p,"reason":na[p]})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
open(here+'/MANIFEST.json','a').write('\n')
print(len(m["checks"]),"claimed,",len(m["not_applicable"]),"not applicable")
