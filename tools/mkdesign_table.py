#!/usr/bin/env python3
# prints the table of planted bugs for DESIGN.md
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| id | property | what it breaks | what it needs | caught by |')
print('|---|---|---|---|---|')
for d in sorted(glob.glob(V+'/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    c=m.get('caught_by') or m['property']+' quick'
    f=lambda s:s.replace('|','/').replace('\n',' ')
    print('| %s | %s | %s | %s | %s |'%(os.path.basename(d[:-1]),m['property'],f(m['what_it_breaks']),f(m['needs']),c))
