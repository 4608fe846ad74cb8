#!/bin/bash
# usage: mkseed.sh <seed id> <property> <pkg dir> <test name regexp> <needs> <what_it_breaks>
# Takes the diff of the scratch copy /tmp/m and the test /tmp/demo_test.go, and
# keeps them as a planted bug after confirming it (see confirm.sh).
set -eu
id=$1 prop=$2 pkg=$3 run=$4 needs=$5 breaks=$6
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/m diff > "$d/patch.diff"
cp /tmp/demo_test.go "$d/demo_test.go"
cat > "$d/demo.sh" <<EOS
#!/bin/bash
# Fails (nonzero) when the planted bug is present.
d=\$(cd "\$(dirname "\$0")" && pwd)
export HOME=/root GOROOT=/opt/vp/go1.18.10 PATH=/opt/vp/go1.18.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=readonly GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
tmp=\$(mktemp -d /tmp/demo.XXXXXX)
trap '/bin/rm -rf "\$tmp"' EXIT
export GOCACHE=\${GOCACHE:-/opt/vp/gocache} TMPDIR=\$tmp
root=\$PWD
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/demo_test.go"}}' "\$root" "$pkg" "\$d" > "\$tmp/overlay.json"
go test -overlay "\$tmp/overlay.json" -vet=off -count=1 -timeout 240s -run '$run' ./$pkg
EOS
chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$needs" "$breaks" <<'EOS'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
EOS
bash /verif/tools/confirm.sh "$id"
