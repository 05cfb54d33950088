#!/usr/bin/env python3
# Appends the per-property section of DESIGN.md from the tables (everything after the marker is regenerated).
import json,os,re,glob
top=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M="<!-- generated below by dev/design_tail.py -->"
s=open(top+"/DESIGN.md").read().split(M)[0].rstrip()+"\n\n"+M+"\n\n"
man=json.load(open(top+"/MANIFEST.json")); props=[json.loads(l) for l in open(top+"/properties.jsonl")]
H={}
for f in sorted(glob.glob(top+"/harness/verifh/*/*.go")):
    t=open(f).read()
    for m in re.finditer(r"((?:^//.*\n)+)func (H_(C\d+)_\w+)\(\)",t,re.M):
        H.setdefault(m[3],[]).append((m[2],os.path.relpath(f,top)," ".join(l[2:].strip() for l in m[1].splitlines())))
s+="## Properties and how each is decided\n\n"
chk={c["property"]:c for c in man["checks"]}
for p in sorted(props,key=lambda p:p["id"]):
    if p["id"] not in chk: continue
    s+="### %s %s\n\n%s\n\n*Quantifier:* %s.\n\n*Why tests cannot:* %s.\n\n"%(p["id"],p["title"],p["statement"],p["quantifier"]["text"],p["why_tests_cant"])
    s+="*Bounds and trust:* %s\n\n"%chk[p["id"]]["level_note"]
    for h,f,d in H.get(p["id"],[]):
        s+="* `%s` (%s): %s\n"%(h,f,re.sub(r"^%s:? ?"%h,"",d))
    s+="\n"
s+="## Not applicable\n\n"
for n in man["not_applicable"]: s+="* %s: %s\n"%(n["property"],n["reason"])
s+="\n## Genuine defects found and repaired (known_findings.json)\n\n"
for k in json.load(open(top+"/known_findings.json")):
    s+="* %s\n"%k["what"]
s+="\n## Planted bugs (seeded/) and the checks that catch them\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"
res=json.load(open(top+"/dev/seed_results.json")) if os.path.exists(top+"/dev/seed_results.json") else {}
for d in sorted(glob.glob(top+"/seeded/*/meta.json")):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    s+="| %s | %s | %s | %s |\n"%(i,m["property"],m["needs"],res.get(i,"?"))
open(top+"/DESIGN.md","w").write(s)
