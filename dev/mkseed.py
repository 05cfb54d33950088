#!/usr/bin/env python3
# mkseed.py [ID...]: builds and validates the planted bugs of dev/seeds.py into /verif/seeded
# (a scratch copy of /repo gets the edit; it must build, keep the stable tests, pass the demo without and fail it with the edit).
import json,os,subprocess,sys,shutil
top=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,top+"/dev")
from seeds import SEEDS
W="/tmp/seedw"; REPO=os.environ.get("REPO","/repo")
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for s in SEEDS:
    d=top+"/seeded/"+s["id"]
    if (sys.argv[1:] and s["id"] not in sys.argv[1:]) or (not sys.argv[1:] and os.path.exists(d+"/patch.diff")): continue
    sh("test -d /tmp/seedw && rm -rf /tmp/seedw; cp -a "+REPO+" /tmp/seedw && git -C /tmp/seedw checkout -q -- .")
    ok=True
    for f,o,n in s["edits"]:
        p=W+"/"+f; t=open(p).read()
        if t.count(o)!=1: print(s["id"],"EDIT matches",t.count(o),"times:",o[:60]); ok=False; break
        open(p,"w").write(t.replace(o,n))
    if not ok: continue
    b=sh(". /opt/vp/env.sh; cd /tmp/seedw && go build ./... && gofmt -l "+" ".join(set(f for f,_,_ in s["edits"] if "parser.go" not in f))+" internals/ast/utils.go")
    if b.returncode or b.stdout.strip(): print(s["id"],"BUILD",b.stdout,b.stderr[:500]); continue
    env=sh(". /opt/vp/env.sh; cd /tmp/seedw && go test ./... -json 2>/dev/null")
    got=set()
    for l in env.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get("Action")=="pass" and e.get("Test"): got.add(e["Package"]+"/"+e["Test"])
    miss=[x for x in stable if x not in got]
    if miss: print(s["id"],"TESTS FAIL",miss[:5]); continue
    os.makedirs(d,exist_ok=True)
    if "demo" in s:
        for n,t in s["demo"].items(): open(d+"/"+n,"w").write(t)
        for n,t in s.get("demofiles",{}).items():
            os.makedirs(os.path.dirname(d+"/files/"+n),exist_ok=True); open(d+"/files/"+n,"w").write(t)
    else:
        for n in ("demo.sh","demo_main.go"): shutil.copy(top+"/dev/demo/"+("demo_many.sh" if s.get("many") and n=="demo.sh" else n),d+"/"+n)
        open(d+"/prog.cd","w").write(s["prog"]); open(d+"/want","w").write(s["want"])
        for n,t in s.get("files",{}).items():
            os.makedirs(os.path.dirname(d+"/files/"+n),exist_ok=True); open(d+"/files/"+n,"w").write(t)
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    diff=sh("git -C /tmp/seedw diff -- "+" ".join(set(f for f,_,_ in s["edits"]))).stdout
    g=sh(d+"/demo.sh",cwd=REPO); x=sh(d+"/demo.sh",cwd=W)
    if g.returncode!=0: print(s["id"],"DEMO fails on /repo:",g.stdout[:600],g.stderr[:300]); continue
    if x.returncode==0: print(s["id"],"DEMO passes with the patch"); continue
    open(d+"/patch.diff","w").write(diff)
    print(s["id"],"kept:",x.stdout[:200].replace("\n"," | "))
