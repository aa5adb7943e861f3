#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":("exhaustive exploration of notification sequences on the real store against a map model","every sequence up to the stated depth over the stated key sets; trusts that longer histories and other keys bring nothing new"),
}
exec(open(os.path.join(V,"tools","techniques.py")).read()) if os.path.exists(os.path.join(V,"tools","techniques.py")) else None
checks=[];na=[]
for l in open(os.path.join(V,"properties.jsonl")):
    p=json.loads(l);i=p["id"]
    if i in T:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",technique=t,level="model_checking",level_note=n))
    else: na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
 notes="The checks build /repo's working tree as it is (no hooks in /repo); the concurrency checks instrument copies through go build -overlay.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
