#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the property list."""
import json, os, subprocess
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
T={}  # property -> (technique, note)
exec(open(os.path.join(here,'tools','claims.py')).read())
m=dict(version=1,setup_cmd="./build.sh",checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in T:
        m['checks'].append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
            evidence_file=f"evidence/{i}.json",technique=T[i][0],level="other",level_note=T[i][1]))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,"no static check built for it yet")))
m['notes']="Static analysis only: a guarded value-flow evaluation of the SSA form of /repo with everything reachable inlined, decided by BDDs; see DESIGN.md. No hooks in /repo."
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
open(os.path.join(here,'MANIFEST.json'),'a').write("\n")
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
