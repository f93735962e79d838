#!/bin/bash
# Runs the check of its property (or, with -all, every check) on every planted change, each in a scratch copy of /repo.
chk=${CHK:-/verif/bin/chk}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
all=; [ "$1" = -all ] && { all=1; shift; }
one() {
  id=$(basename "$1"); t=$(mktemp -d); trap 'rm -rf "$t"' RETURN
  cp -a /repo "$t/repo" && git -C "$t/repo" apply "$1/patch.diff" || { echo "$id: does not apply"; return; }
  p=$(python3 -c "import json;print(json.load(open('$1/meta.json'))['property'])")
  props=$p; [ -n "$all" ] && props=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")
  out=
  for q in $props; do
    "$chk" -repo "$t/repo" -verif /verif -prop $q -noevidence >/dev/null 2>&1
    rc=$?; [ $rc = 1 ] && out="$out $q"; [ $rc -gt 1 ] && out="$out $q(rc$rc)"
  done
  echo "$id [$p]:${out:- missed}"
}
export -f one; export chk all
ls -d /verif/seeded/${1:-*}/ | sed 's:/$::' | xargs -P 6 -I{} bash -c 'one {}'
