#!/usr/bin/env python3
"""Refreshes the planted-bug table of DESIGN.md from seeded/*/meta.json and docs/caught.txt (id rc)."""
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c={}
if os.path.exists(R+"/docs/caught.txt"):
    for l in open(R+"/docs/caught.txt"):
        a=l.split(); c[a[0]]=a[1]
t="| planted bug | property | needs | caught by its check (quick) |\n|---|---|---|---|\n"
for m in sorted(glob.glob(R+"/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m))
    t+=f"| {i} | {d['property']} | {d['needs']} | {'yes' if c.get(i)=='1' else 'no' if i in c else '?'} |\n"
s=open(R+"/DESIGN.md").read()
s=re.sub(r"<!--SEEDS-->.*?(?=\n\nStrengthened)", lambda _: "<!--SEEDS-->\n"+t.rstrip(), s, flags=re.S)
open(R+"/DESIGN.md","w").write(s)
