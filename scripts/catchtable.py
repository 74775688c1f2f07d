#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (run after a change of /verif/seeded)."""
import json,glob,os
print("| planted bug | property | needs |\n|---|---|---|")
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__),'../seeded/*/meta.json'))):
    d=json.load(open(f)); i=f.split('/')[-2]
    n=d['needs'] if isinstance(d['needs'],str) else '; '.join(d['needs'])
    print(f"| {i} | {d['property']} | {n} |")
