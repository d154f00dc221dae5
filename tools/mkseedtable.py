#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
rows=['<!-- seeded -->','| bug | property (caught by) | needs | breaks |','|--|--|--|--|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); n=os.path.basename(d[:-1])
    rows.append('| %s | %s | %s | %s |'%(n,m['property'],m['needs'],m['what_it_breaks']))
rows.append('<!-- /seeded -->')
p='/verif/DESIGN.md'; s=open(p).read(); t='\n'.join(rows)
s=s.replace('SEEDEDTABLE',t) if 'SEEDEDTABLE' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
