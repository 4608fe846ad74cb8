#!/bin/bash
# usage: check.sh <property|all> [quick|thorough]
# Builds the analyzer (if its binary is not current) and runs one property's
# rules over /repo's current working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
repo=${VERIF_REPO:-/repo}
. "$here/build.sh" || { echo "cannot build the analyzer"; exit 2; }
tmp=$(mktemp -d /tmp/vsa.XXXXXX)
trap '/bin/rm -rf "$tmp"' EXIT
GO18=/opt/vp/go1.18.10
env -i HOME="${HOME:-/root}" PATH=$GO18/bin:/usr/bin:/bin GOROOT=$GO18 GOTOOLCHAIN=local \
  GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod \
  GOCACHE="$tmp/gocache" CGO_ENABLED=0 GOWORK=off VERIF_SEED="${VERIF_SEED:-1}" VSA_DEBUG="${VSA_DEBUG:-}" \
  GOMEMLIMIT=12GiB \
  "$VSA_BIN" -repo "$repo" -verif "${VERIF_OUT:-$here}" -prop "$prop" -tier "$tier"
exit $?
