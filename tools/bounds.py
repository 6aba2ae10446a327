#!/usr/bin/env python3
"""Writes BOUNDS.md: what each part of each check enumerated in the last run whose evidence is in evidence/."""
import json,glob,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o=["# Bounds of every part of every check (quick tier)","",
"Generated by tools/bounds.py from the evidence files; every run rewrites those, this list is a snapshot.","",
"For each part: what is enumerated, and in brackets executions / distinct states / oracle comparisons.",""]
T={json.loads(l)["id"]:json.loads(l)["title"] for l in open(R+"/properties.jsonl")}
for f in sorted(glob.glob(R+"/evidence/C*.json")):
    e=json.load(open(f)); c=e["coverage"]
    o+=["## %s %s"%(e["property"],T[e["property"]]),""]
    for p in c["parts"]:
        o.append("- **%s**: %s [%d / %d / %d%s]"%(p["name"],p["bound"],p["executions"],p["distinct_states"],p["oracle_comparisons"],"" if p["exhausted"] else ", not exhausted"))
    o.append("")
open(R+"/BOUNDS.md","w").write("\n".join(o))
