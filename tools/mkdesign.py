#!/usr/bin/env python3
"""Rewrites the table of planted bugs and the list of properties not claimed in DESIGN.md."""
import json, os, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={};NA={}
exec(open(here+'/tools/claims.py').read())
d=open(here+'/DESIGN.md').read()
rows=[]
for i in sorted(os.listdir(here+'/seeded')):
    m=json.load(open(f'{here}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} |")
a=d.index('| planted |'); b=d.index('\n\n',a)
d=d[:a]+'| planted | caught by | what it breaks |\n|---|---|---|\n'+'\n'.join(rows)+d[b:]
a=d.index('## 5. Not applicable')
na=''
for l in open(here+'/properties.jsonl'):
    p=json.loads(l)
    if p['id'] not in T: na+=f"\n**{p['id']}, {p['title']}.** {NA[p['id']]}\n"
d=d[:a]+'## 5. Not applicable\n'+na
open(here+'/DESIGN.md','w').write(d)
print(len(rows))
