#!/usr/bin/env python3
# puts DESIGN.md together
import json,glob,os
h='/verif/'
s=open(h+'tools/DESIGN.head.md').read()+'\n'+open(h+'tools/DESIGN.props.md').read()
s+='''
## Cost

Quick checks take 3 to 35 s of wall time on 8 cores after the build (a second
or two when cached). Thorough runs the same sections 20 to 50 times deeper.

'''
s+=open(h+'tools/DESIGN.tail.md').read()
rows=[]
caught={}
try: caught=json.load(open(h+'tools/caught.json'))
except Exception: pass
for d in sorted(glob.glob(h+'seeded/*')):
    i=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),', '.join(caught.get(i,[])) or '?'))
s+='''
## Planted bugs

Each was written from the property and the code; `caught by` lists the checks
which were run against it and report it at their quick tier, seed 1.

| bug | property | needs | caught by |
|---|---|---|---|
'''+'\n'.join(rows)+'\n'
k=[l.strip() for l in open(h+'known_findings.txt')]
s+='\n## Defects repaired in /repo\n\n'+'\n'.join('* '+l[7:].replace('property=','') for l in k if l.startswith('fixed:'))+'\n'
s+='\n## Findings recorded, not repaired\n\n'+'\n'.join('* '+l[9:] for l in k if l.startswith('finding:'))+'\n'
open(h+'DESIGN.md','w').write(s)
