#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os, subprocess
D=os.path.dirname(os.path.abspath(__file__))+"/.."
props=[json.loads(l) for l in open(D+"/properties.jsonl")]
EX="Exhaustive within the stated bounds, on the real code; says nothing about larger programs or other values. Trusts the reference model in /verif/harness (written from the property, not from the code) and the harness's reading of the tool's output."
T={}
def c(id,technique,level,note): T[id]=(technique,level,note)
exec(open(D+"/tools/claims.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in T:
        t,l,n=T[i]
        checks.append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,"technique":t,"level":l,"level_note":(n+" "+EX).strip()})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
hooks=[h for h in HOOKS]
m={"version":1,"setup_cmd":"./run.sh setup",
 "hooks":{"guard":"cfg burn_verif","enable":"BURN_VERIF_DIR=/verif BURN_VERIF_STAMP=<content hash> cargo rustc --manifest-path /repo/Cargo.toml --bin burn_fm --offline --locked --target-dir /verif/target -- --cfg burn_verif (see run.sh)","source_commits":hooks},
 "checks":checks,"not_applicable":na,
 "notes":"One binary, built from /repo's working tree, holds all checks; run.sh <property> [quick|thorough] runs one, run.sh replay <file> replays a reported case. Genuine defects are in known_findings.txt."}
json.dump(m,open(D+"/MANIFEST.json","w"),indent=1); open(D+"/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not")
