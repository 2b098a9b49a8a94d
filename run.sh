#!/bin/bash
# usage: run.sh PROPERTY  -- builds the analyser when needed and decides one property on /repo's source.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
go=/opt/veriftools/go1.26.10/bin/go
[ -x "$go" ] || go="$(command -v go1.26 || command -v go)"
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
bin="$here/bin/checker"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -type f \( -name '*.go' -o -name '*.json' -o -name go.mod \) -not -path '*/vendor/*' -print -quit)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/checker" && "$go" build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the analyser"; exit 2; }
fi
[ "$1" = "--build" ] && exit 0
unset GOFLAGS
exec "$bin" -verif "$here" -repo "${VERIF_REPO:-/repo}" -property "$1"
