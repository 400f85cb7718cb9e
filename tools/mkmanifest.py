#!/usr/bin/env python3
import json,sys,importlib.util,os
sys.path.insert(0,'/verif')
from specs_index import CHECKS, NA
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m=dict(version=1,setup_cmd="bash /verif/setup.sh",checks=[],not_applicable=[],notes="See DESIGN.md.")
for p in props:
    i=p['id']
    if i in CHECKS:
        c=CHECKS[i]
        m['checks'].append(dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
          evidence_file=f"evidence/{i}.json",technique=c['technique'],level=c.get('level','proof'),level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,"not claimed: machinery for it not built")))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
