#!/usr/bin/env python3
"""usage: seedmeta.py <id> <property> <needs> <what it breaks>"""
import sys,json
i,p,n,w=sys.argv[1:5]
json.dump({'property':p,'needs':n,'what_it_breaks':w},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
