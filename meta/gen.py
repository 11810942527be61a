#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the analyzer's registry and meta/not_applicable.json."""
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg=json.loads(subprocess.check_output([V+"/bin/verifcheck","-list"]))
props=[json.loads(l) for l in open(V+"/properties.jsonl") if l.strip()]
na=json.load(open(V+"/meta/not_applicable.json"))
nai={x["property"] for x in na}
checks=[]
for p in props:
    i=p["id"]
    if i in nai: continue
    r=reg[i]
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
      "technique":r["technique"],"level":r["level"],"level_note":r["note"]})
missing=set(reg)-{p["id"] for p in props}
if missing: print("registered but not in properties.jsonl:",missing)
m={"version":1,"setup_cmd":"bash check.sh setup","checks":checks,"not_applicable":na,
 "notes":"All checks are static analyses of /repo's current working tree; no code of /repo is executed. No hooks are needed."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
