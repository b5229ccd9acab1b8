#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md.
import json,os,re,glob
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
rows=["| bug | breaks | needs | caught by |","|---|---|---|---|"]
for f in sorted(glob.glob(R+"/seeded/*/meta.json")):
    m=json.load(open(f)); i=f.split("/")[-2]
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by',m['property'])} |")
p=R+"/DESIGN.md"; s=open(p).read()
b,e="<!-- bugs -->\n","<!-- end of bugs -->"
t=b+"\n".join(rows)+"\n"+e
if "@@TABLE@@" in s: s=s.replace("@@TABLE@@",t)
else: s=s[:s.index(b)]+t+s[s.index(e)+len(e):]
open(p,"w").write(s)
