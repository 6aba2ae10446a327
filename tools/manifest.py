#!/usr/bin/env python3
"""Writes MANIFEST.json: every property whose harness mc/src/bin/<id>.rs exists is claimed."""
import json, os, re
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    f=f"{R}/mc/src/bin/{p['id'].lower()}.rs"
    if not os.path.exists(f):
        na.append({"property":p["id"],"reason":"not claimed: no harness has been built for it yet"}); continue
    src=open(f).read()
    m=re.search(r'//! TECHNIQUE: (.*)',src); n=re.search(r'//! NOTE: (.*)',src); l=re.search(r'//! LEVEL: (.*)',src)
    checks.append({"property":p["id"],"quick_cmd":f"./run.sh {p['id']}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {p['id']}",
      "technique":m.group(1),"level":l.group(1) if l else "model_checking","level_note":n.group(1)})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"All checks are bounded exhaustive explorations of the real code by the explorer in mc/; no hooks in /repo."},open(R+"/MANIFEST.json","w"),indent=1)
print(len(checks),len(na))
