# sourced by check.sh and setup.sh: builds $VSA_BIN from the committed sources
VSA_BIN=$here/.build/vsa
stamp=$(cat "$here"/analyzer/*.go "$here"/analyzer/go.mod | sha256sum | cut -d' ' -f1)
if [ ! -x "$VSA_BIN" ] || [ "$(cat "$here/.build/stamp" 2>/dev/null)" != "$stamp" ]; then
  mkdir -p "$here/.build" || return 1
  bc=$(mktemp -d /tmp/vsabuild.XXXXXX) || return 1
  ( cd "$here/analyzer" && env GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 \
      GOCACHE="${VSA_GOCACHE:-$bc}" go build -o "$here/.build/vsa.$$" . ) || { /bin/rm -rf "$bc"; return 1; }
  mv "$here/.build/vsa.$$" "$VSA_BIN" && echo "$stamp" > "$here/.build/stamp"
  /bin/rm -rf "$bc"
fi
