#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the checker and decides one property of /repo.
# Without arguments it only builds.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export HOME=${HOME:-/root}
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/checker" && go build -o "$here/bin/chk" .) || { echo "the checker does not build" >&2; exit 2; }
[ $# -eq 0 ] && exit 0
exec "$here/bin/chk" -repo /repo -verif "$here" -prop "$1" -tier "${2:-quick}"
