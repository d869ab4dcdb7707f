#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(V+'/tools/caught.json')) if os.path.exists(V+'/tools/caught.json') else {}
rows=['| seed | property | breaks | needs | caught by |','|---|---|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=f.split('/')[-2];m=json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c.get(i,'?')} |")
s=open(V+'/DESIGN.md').read()
s=s[:s.index('<!-- seeds -->')]+'<!-- seeds -->\n'+'\n'.join(rows)+'\n'
open(V+'/DESIGN.md','w').write(s)
