#!/usr/bin/env python3
"""Writes DESIGN.md from the property list, techniques, design notes and the seeded bugs."""
import json, os, glob, textwrap
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
exec(open(V+"/tool/techniques.py").read())
exec(open(V+"/tool/design_notes.py").read())
seeds={}
for m in sorted(glob.glob(V+"/seeded/*/meta.json")):
    d=json.load(open(m)); seeds.setdefault(d["property"],[]).append((os.path.basename(os.path.dirname(m)),d))
o=[HEAD.strip(),""]
o.append("## Properties\n")
for p in props:
    i=p["id"]; o.append("### %s %s\n"%(i,p["title"]))
    if i in TECH:
        o.append("*Deciding method.* %s.\n"%TECH[i][0]); o.append("*Reach.* %s\n"%TECH[i][1])
    else: o.append("*Not applicable.* %s.\n"%NA.get(i,"no static check has been built for it yet"))
    if i in HOW: o.append(HOW[i].strip()+"\n")
    s=seeds.get(i,[])
    if s: o.append("*Planted bugs, all caught by this check unless said otherwise:* "+"; ".join("`%s` (%s)"%(n,d["what_it_breaks"].rstrip(".")) for n,d in s)+".\n")
o.append("## Defects found in nuSQuIDS\n")
o.append("Recorded in `known_findings.txt` (fixed: repaired by a `fix:` commit; known: recorded).\n")
for l in open(V+"/known_findings.txt"):
    l=l.strip()
    if l and not l.startswith("#"): o.append("- "+l)
o.append("\n"+TAIL.strip()+"\n")
open(V+"/DESIGN.md","w").write("\n".join(o))
