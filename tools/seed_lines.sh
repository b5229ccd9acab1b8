#!/bin/bash
# Which planted bugs change lines that the original repository had.
BASE=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1)
for d in "$(dirname "$0")"/../seeded/*/; do
  python3 - "$d/patch.diff" "$BASE" <<'P'
import re,subprocess,sys
f=None; old=0; n=o=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: old=int(m.group(1)); continue
    if l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','-C','/repo','blame','-l','-s','-L',f'{old},{old}',f],capture_output=True,text=True).stdout
        n+=1; o+=b.lstrip('^').startswith(sys.argv[2][:30])
        old+=1
    elif l.startswith(' '): old+=1
print(sys.argv[1].split('/')[-2], f'{o} of {n} removed lines are original')
P
done
