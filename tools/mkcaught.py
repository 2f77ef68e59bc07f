"""Adds the check of a bug's own property to tools/caught.json."""
import json,os,sys
f='tools/caught.json'; c=json.load(open(f))
for d in sorted(os.listdir('seeded')):
    p=json.load(open(f'seeded/{d}/meta.json'))['property']
    if d in sys.argv[1:] or '--all' in sys.argv:
        c.setdefault(d,[])
        if p not in c[d]: c[d].append(p)
json.dump(c,open(f,'w'),indent=1,sort_keys=True); open(f,'a').write('\n')
