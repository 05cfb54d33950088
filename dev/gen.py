#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table in dev/props.py.
import json,os,sys
d=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,d)
from props import PROPS,NA,NOTES
top=os.path.dirname(d)
with open(top+'/properties.jsonl','w') as f:
    for p in PROPS+NA:
        f.write(json.dumps({
            "id":p["id"],"title":p["title"],"statement":p["statement"],
            "quantifier":{"over":p.get("over",["programs","inputs"]),"text":p["quant"]},
            "why_tests_cant":p["why"],
            "anchors":{"files":p["files"],"mechanism":[{"name":n,"where":w} for n,w in p["mech"]],
                       "observe_at":p.get("observe",["the LLVM module the compiler emits"]),"hook_needed":None}})+"\n")
m={"version":1,"setup_cmd":"./build.sh","hooks":{"guard":"verif","enable":"no hooks are needed: harnesses enter through a go build overlay","source_commits":[]},
   "checks":[{"property":p["id"],"quick_cmd":"./run_check.sh "+p["id"],"thorough_cmd":"VERIF_TIER=thorough ./run_check.sh "+p["id"],
     "evidence_file":"evidence/%s.json"%p["id"],
     "technique":p.get("technique","symbolic execution of the compiler's Go SSA and of the IR it emits, decided by z3 (bounded)"),
     "level":"model_checking","level_note":p["note"]} for p in PROPS],
   "not_applicable":[{"property":p["id"],"reason":p["reason"]} for p in NA],
   "notes":NOTES}
json.dump(m,open(top+'/MANIFEST.json','w'),indent=1)
open(top+'/MANIFEST.json','a').write('\n')
import subprocess
