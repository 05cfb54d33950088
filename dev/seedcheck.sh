#!/bin/bash
# seedcheck.sh ID...: runs the property's check on a scratch copy of /repo with the planted bug (development only)
# and records the outcome in dev/seed_results.json.
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/seedc-$id
  cp -a ${REPO:-/repo} $w && git -C $w checkout -q -- . && git -C $w apply $PWD/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  e=/tmp/seede-$id; mkdir -p $e; cp -r harness $e/harness; ln -sfn $PWD/known_findings.json $e/known_findings.json
  out=$(VERIF_DIR=$e VERIF_DEV_REPO=$w timeout 900 ${ENGINE:-/tmp/vengine} run ${PROP:-$p} 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations $(echo "$out" | grep -m1 -i 'violation\|error' | cut -c1-160)"
  r="missed"; [ $rc = 1 ] && r="${PROP:-$p}"
  flock /tmp/seedlock python3 -c "
import json,os
f='dev/seed_results.json'; d=json.load(open(f)) if os.path.exists(f) else {}
d['$id']='$r'; json.dump(d,open(f,'w'),indent=1,sort_keys=True)"
  find $w -delete; find $e -delete
done
