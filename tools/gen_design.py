#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, the evidence files (streams) and seeded/*/meta.json (table)."""
import json,glob,os
V='/verif'
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
title={p['id']:p['title'] for p in props}
HEAD=open(f'{V}/tools/design_head.md').read()
TAIL=open(f'{V}/tools/design_tail.md').read()
SEC={}
cur=None
for l in open(f'{V}/tools/design_props.md'):
    if l.startswith('## '): cur=l[3:].strip(); SEC[cur]=[]
    elif cur: SEC[cur].append(l)
out=[HEAD.rstrip(),'\n\n# Properties and how each is decided\n']
for p in props:
    i=p['id']; out.append(f"\n## {i} {title[i]}\n\n"+''.join(SEC[i]).strip()+'\n')
    f=f'{V}/evidence/{i}.json'
out.append('\n'+TAIL.rstrip()+'\n')
notes=json.load(open(f'{V}/tools/seed_notes.json'))
out.append('\n# Planted bugs\n\nEach was written from the text of a property and the code, verified to pass the 118 tests, and to fail its own demo.\n"first missed" means that the check of the property was strengthened afterwards (how: last column).\n\n| bug | property | what it breaks | needs | outcome |\n|---|---|---|---|---|\n')
for d in sorted(glob.glob(f'{V}/seeded/*')):
    m=json.load(open(d+'/meta.json')); b=os.path.basename(d)
    c=lambda s:s.replace('|','\\|').replace('\n',' ')
    out.append(f"| {b} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {notes.get(b,'caught by the check of '+m['property'])} |\n")
open(f'{V}/DESIGN.md','w').write(''.join(out))
