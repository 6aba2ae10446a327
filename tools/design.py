#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, the properties and the headers of the checks."""
import json,os,glob,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD=open(R+"/tools/design_head.md").read()
TAIL=open(R+"/tools/design_tail.md").read()
ORACLE=json.load(open(R+"/tools/design_oracles.json"))
o=[HEAD.rstrip(),"","## The properties, one by one","",
"For each: what decides it, the model it is compared with, its limits, and what this reaches that the tests cannot. "
"What every part enumerates, number by number, is in BOUNDS.md; the evidence files hold the counts of the last run.",""]
for l in open(R+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    h={}
    for s in open(f"{R}/mc/src/bin/{i.lower()}.rs"):
        m=re.match(r"//! (TECHNIQUE|NOTE): (.*)",s)
        if m: h[m[1]]=m[2].strip()
    a,b=ORACLE[i]
    o+=[f"### {i} {p['title']}","",f"*Decided by* {h['TECHNIQUE']}.","",f"*Oracle.* {a}","",f"*Bounds and limits.* {h['NOTE']}","",
        f"*Beyond the tests.* {p['why_tests_cant']} {b}".rstrip(),""]
open(R+"/DESIGN.md","w").write("\n".join(o)+"\n"+TAIL)
t=["| planted bug | property | needs | caught by |","|---|---|---|---|"]
c={l.split("\t")[0]:l.rstrip("\n").split("\t") for l in open(R+"/tools/catches.tsv")}
for f in sorted(glob.glob(R+"/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(f)); m=json.load(open(f)); r=c.get(i)
    t.append("| %s | %s | %s | %s |"%(i,m["property"],m["needs"],("%s, part \"%s\""%(r[1],r[3]) if r and r[2]=="1" else "not yet" if not r else "missed")))
open(R+"/DESIGN.md","a").write("\n".join(t)+"\n")
