#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a script in checks/ is claimed."""
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
TECH={}
exec(open(V+"/tool/techniques.py").read())
ck=[]; na=[]
for p in props:
    i=p["id"]; f="checks/%s.py"%i
    if os.path.exists(os.path.join(V,f)) and i in TECH:
        ck.append({"property":i,"quick_cmd":"python3 %s"%f,"thorough_cmd":"VERIF_TIER=thorough python3 %s --thorough"%f,"evidence_file":"evidence/%s.json"%i,
            "technique":TECH[i][0],"level":"other","level_note":TECH[i][1]})
    else: na.append({"property":i,"reason":NA.get(i,"no static check has been built for it yet")})
m={"version":1,"setup_cmd":"python3 lib/setup.py","checks":ck,"not_applicable":na,"notes":"See DESIGN.md. All checks compile the current sources of /repo to LLVM IR and analyse that; nothing of nuSQuIDS is executed."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(ck),"claimed",len(na),"not applicable")
