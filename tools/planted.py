#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md, by property."""
import json,glob,os
t={}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); t.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(f)),m['needs']))
for p in sorted(t):
    print('- **%s** (%d): '%(p,len(t[p]))+'; '.join('`%s` (needs %s)'%x for x in t[p])+'.')
