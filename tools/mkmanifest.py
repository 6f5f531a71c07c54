#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl: every property whose check is
# registered in the harness (claimed.list) is claimed, the rest are listed as
# not applicable (yet), with a reason.
import json,os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
claimed={}
for l in open(here+"/claimed.list"):
    l=l.rstrip("\n")
    if not l or l.startswith("#"): continue
    i,tech,note=l.split("|",2)
    claimed[i]=(tech,note)
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for l in open(here+"/properties.jsonl"):
    i=json.loads(l)["id"]
    if i in claimed:
        t,n=claimed[i]
        m["checks"].append({"property":i,"quick_cmd":"bash check.sh %s quick"%i,"thorough_cmd":"bash check.sh %s thorough"%i,
          "technique":t,"level":"fault_enumeration" if i in("C11","C30") else "exploration","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
open(here+"/MANIFEST.json","a").write("\n")
print(len(m["checks"]),"claimed",len(m["not_applicable"]),"not")
