#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md (between the SEEDTABLE markers) from seeded/*/meta.json."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    w=m['what_it_breaks'].replace('|','\\|').replace('\n',' ')
    n=m['needs'].replace('|','\\|').replace('\n',' ')
    rows.append((m['property'],d,w,n))
rows.sort()
t='| caught by | change | what it breaks | needs |\n|---|---|---|---|\n'+''.join(f'| {p} quick | {d} | {w} | {n} |\n' for p,d,w,n in rows)
p=root+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- SEEDTABLE -->.*<!-- /SEEDTABLE -->', lambda _: '<!-- SEEDTABLE -->\n'+t+'<!-- /SEEDTABLE -->', s, flags=re.S)
open(p,'w').write(s); print(len(rows))
