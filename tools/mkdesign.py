#!/usr/bin/env python3
"""Rewrite the seed table of DESIGN.md from seeded/*/meta.json."""
import json,os,re
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(v+'/seeded')):
    m=json.load(open(f'{v}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
s=open(v+'/DESIGN.md').read()
i=s.index('| seed | property | needs |'); j=s.index('\n\n',i)
s=s[:i]+'| seed | property | needs |\n|---|---|---|\n'+'\n'.join(rows)+s[j:]
k=json.load(open(v+'/known_findings.json'))
open(v+'/DESIGN.md','w').write(s)
print(len(rows),'seeds')
