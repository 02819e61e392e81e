#!/usr/bin/env python3
"""Source of /verif/known_findings.txt: the findings below plus one line per fix commit in /repo."""
import subprocess, os
D=os.path.dirname(os.path.abspath(__file__))+"/.."
FIXED={ # commit subject -> (property, what failed)
}
exec(open(D+"/tools/fixed.py").read())
log=[l.split(" ",1) for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()]
out=["# Genuine defects of burn_fm found by the checks.",
"# 'fixed:' entries were repaired in /repo and suppress nothing.",
"# 'finding' entries are not repaired; the check prints them as KNOWN-FINDING, matched by exact case key.",""]
for h,s in log:
    if s.startswith("fix:"):
        k=s[5:]
        assert k in FIXED, "no entry for: "+k
        p,w=FIXED[k]
        for q in p.split(): out.append("fixed: property=%s %s %s"%(q,h,w))
out.append("")
if os.path.exists(D+"/tools/findings.txt"): out+=open(D+"/tools/findings.txt").read().splitlines()
open(D+"/known_findings.txt","w").write("\n".join(out)+"\n")
