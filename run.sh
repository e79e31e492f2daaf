#!/bin/bash
# usage: run.sh check C01 | replay FILE | one C01 SEED | build DIR | setup
# Builds the simulator against /repo's current tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${ZZ_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
export ZZ_VERIF=$here
build() { # build OUTDIR
	(cd "$here/tools/instr" && go build -o "$1/instr" .) || return 2
	"$1/instr" -repo "$repo" -sim "$here/sim" -out "$1/src" || return 2
	(cd "$repo" && go build -overlay "$1/src/overlay.json" -o "$1/harness" ./zzverif) || return 2
}
cmd=${1:-}
if [ "$cmd" = build ]; then
	mkdir -p "$2"; build "$2"; exit $?
fi
scratch=$(mktemp -d /tmp/zzverif.XXXXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
build "$scratch" || { echo "build failed"; exit 2; }
case $cmd in
setup) "$scratch/harness" one C01 1 >/dev/null; exit $? ;;
check|replay|one) "$scratch/harness" "$@"; exit $? ;;
*) echo "usage: run.sh check PROPERTY | replay FILE | one PROPERTY SEED"; exit 2 ;;
esac
