#!/bin/bash
# dev tool: build irxval at $1
set -e
O=$(mktemp)
python3 - > $O <<'P'
import json,glob,os
r={}
for f in glob.glob('/verif/harness/verifrt/*.go'): r['/repo/internals/verifrt/'+os.path.basename(f)]=f
for d in ('irx','pipe'):
  for f in glob.glob('/verif/harness/verifh/%s/*.go'%d): r['/repo/internals/verifh/%s/'%d+os.path.basename(f)]=f
r['/repo/internals/verifh/irxval/main.go']='/verif/dev/irxval/main.go'
print(json.dumps({"Replace":r}))
P
cd /repo && GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -overlay $O -o ${1:-/tmp/irxval} ./internals/verifh/irxval
