#!/bin/bash
# usage: confirm.sh <seed id>...   Confirms planted bugs in the scratch copy
# /tmp/m: applies, builds, stable packages pass, demo passes without and fails
# with it, and tells whether the property's check catches it.
for id in "$@"; do
d=/verif/seeded/$id
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
git -C /tmp/m checkout -q -- . && git -C /tmp/m pull -q /repo HEAD >/dev/null 2>&1
cd /tmp/m
export HOME=/root GOROOT=/opt/vp/go1.18.10 PATH=/opt/vp/go1.18.10/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=readonly GOPROXY=off GOCACHE=/tmp/gc18
bash $d/demo.sh > /tmp/demo.out 2>&1; clean=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
go build ./... || { echo "$id: does not build"; git checkout -q -- .; continue; }
bash $d/demo.sh > /tmp/demo.bug 2>&1; bug=$?
PK=$(git diff --name-only | xargs -n1 dirname | sort -u | sed 's,^,./,')
PKGS=$(go list -e ./... | grep -v '/storetheindex/internal/ingest$')
go test -json -vet=off -count=1 -timeout 10m $PKGS > /tmp/m.test.json 2>/dev/null
python3 - > /tmp/m.missing <<'EOS'
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
for l in open('/tmp/m.test.json'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
print(' '.join(sorted(st-ok)))
EOS
caught=$(env -u GOROOT -u GOFLAGS -u GOCACHE VERIF_REPO=/tmp/m VERIF_OUT=/tmp/vo VSA_GOCACHE=/tmp/gc /verif/check.sh $prop 2>&1 | grep -c "^VIOLATION property=$prop")
git checkout -q -- .
echo "$id: demo clean=$clean bug=$bug missing-tests=[$(cat /tmp/m.missing)] caught=$caught"
done
