#!/bin/bash
# run.sh ID [quick|thorough]    decide a property for /repo's current tree
# run.sh replay ID FILE         run one saved case
# Builds the harness (and, through it, /repo's packages) into a temporary folder first.
here=$(cd "$(dirname "$0")" && pwd)
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly VERIF_DIR="$here"
mode=run
if [ "$1" = replay ]; then mode=replay; shift; fi
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
[[ "$seed" =~ ^[0-9]{1,12}$ ]] || seed=1
tmp=$(mktemp -d /tmp/vh-build.XXXXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
trap 'exit 3' INT TERM
go build -C "$here/harness" -o "$tmp/vh" . >&2 || { echo "run.sh: the harness does not build" >&2; exit 3; }
if [ "$id" = A07 ]; then
  CGO_ENABLED=1 go build -C "$here/harness" -race -o "$tmp/vh-race" . >&2 || { echo "run.sh: the harness does not build with -race" >&2; exit 3; }
fi
export VH_RACE="$tmp/vh-race"
if [ "$mode$tier" = runthorough ] && [ "$id" != A07 ]; then
  go test -C "$here/harness" -c -fuzz FuzzSpec -o "$tmp/vh-fuzz" . >&2 || { echo "run.sh: the harness does not build for fuzzing" >&2; exit 3; }
  export VH_FUZZ="$tmp/vh-fuzz"
fi
if [ "$mode" = replay ]; then
  "$tmp/vh" -mode replay -prop "$id" -file "$2"
else
  [ "$tier" = thorough ] || tier=quick
  "$tmp/vh" -prop "$id" -tier "$tier" -seed "$((10#$seed))"
fi
exit $?
