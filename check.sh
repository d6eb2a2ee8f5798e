#!/bin/bash
# usage: check.sh PROPERTY quick|thorough   - decide one property for /repo's working tree
#        check.sh replay FILE               - run the case of a replay file again
# exit 0: held on everything explored; 1: violation; 2: the check itself could not run
set -u
here=$(cd "$(dirname "$0")" && pwd)
what=$1 arg=$2
scratch=$(mktemp -d "${TMPDIR:-/tmp}/scte35-verif.XXXXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM HUP
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
cp "$here/harness/go.mod" "$scratch/go.mod" && cp "$here/harness/go.sum" "$scratch/go.sum" || exit 2
prop=$what
if [ "$what" = replay ]; then
  prop=$(sed -n 's/^ *"property": *"\(P[0-9]*\)".*/\1/p' "$arg" | head -1)
fi
race=()
[ "$prop" = P24 ] && race=(-race)
(cd "$here/harness" && go build "${race[@]}" -modfile="$scratch/go.mod" -o "$scratch/harness" .) || { echo "the harness does not build"; exit 2; }
mkdir "$scratch/work" || exit 2
export VERIF_HARNESS="$here/harness" VERIF_MODFILE="$scratch/go.mod"
if [ "$what" = replay ]; then
  "$scratch/harness" replay "$arg" "$scratch/work"
else
  "$scratch/harness" run -property "$what" -tier "$arg" -seed "${VERIF_SEED:-1}" -verif "$here" -scratch "$scratch/work"
fi
