#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from meta/design_props.json-like table below, known findings and seeds."""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from design_text import T
props=[json.loads(l) for l in open(V+"/properties.jsonl") if l.strip()]
na={x["property"]:x["reason"] for x in json.load(open(V+"/meta/not_applicable.json"))}
out=[]
for p in props:
    i=p["id"]
    out.append(f"### {i} – {p['title']}\n")
    if i in na:
        out.append("Not applicable: "+na[i]+"\n"); continue
    out.append(T[i].strip()+"\n")
fx=[f"* {e['text']}" for e in json.load(open(V+"/known-findings.json"))["entries"] if e["status"]=="fixed"]
sd=["| change | property | needs | caught by |","|---|---|---|---|"]
for m in sorted(glob.glob(V+"/seeded/*/meta.json")):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    c=d.get("caught_by",d["property"])
    sd.append(f"| {n}: {d['what_it_breaks']} | {d['property']} | {d['needs']} | {c} |".replace("\n"," "))
s=open(V+"/meta/DESIGN.tmpl.md").read()
s=s.replace("@@PROPS@@","\n".join(out)).replace("@@FIXES@@","\n".join(fx)).replace("@@SEEDS@@","\n".join(sd))
open(V+"/DESIGN.md","w").write(s)
