#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of checks kmc has.
import json,os,subprocess,sys
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(R,"properties.jsonl"))]
have=subprocess.run([os.path.join(R,"target/release/kmc"),"list"],capture_output=True,text=True).stdout.split("\n")
lv={}
for l in have:
    if l:
        i,level=l.split(" ")
        lv[i]=level
T=json.load(open(os.path.join(R,"tools/notes.json")))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in lv:
        t=T[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t[0],level=lv[i],level_note=t[1]))
    else:
        na.append(dict(property=i,reason=T.get("na",{}).get(i,"no check has been built for it yet")))
m=dict(version=1,setup_cmd="./check.sh setup",hooks=dict(guard="--cfg koopa_mc",enable="RUSTFLAGS=\"--cfg koopa_mc\" (check.sh sets it for the harness build only)",source_commits=T.get("hooks",[])),checks=checks,not_applicable=na,notes="See DESIGN.md.")
json.dump(m,open(os.path.join(R,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
