#!/bin/bash
# Builds the checker (when its sources are newer than the binary) and runs it.
#   check.sh check -prop C01 -tier quick     decide one property
#   check.sh replay FILE                     re-run one counterexample
export VERIF=$(cd "$(dirname "$0")" && pwd)
export REPO=${REPO:-/repo}
if [ -d /opt/veriftools/go1.25.14/bin ]; then export PATH=/opt/veriftools/go1.25.14/bin:$PATH; fi
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=1
unset GOFLAGS
BIN=$VERIF/bin/gosym
build() {
  mkdir -p "$VERIF/bin"
  exec 9>"$VERIF/bin/.lock"
  flock 9
  if [ ! -x "$BIN" ] || [ -n "$(find "$VERIF/engine" -newer "$BIN" \( -name '*.go' -o -name go.mod -o -name go.sum \) -print -quit)" ]; then
    (cd "$VERIF/engine" && go build -mod=readonly -o "$BIN.tmp" . && mv "$BIN.tmp" "$BIN") || exit 2
  fi
  exec 9>&-
}
build || exit 2
[ "$1" = setup ] && exit 0
cmd=$1; shift
exec "$BIN" "$cmd" -repo "$REPO" -verif "$VERIF" "$@"
