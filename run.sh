#!/bin/bash
# run.sh PROPERTY [quick|thorough|replay FILE]: builds the harness that decides
# PROPERTY from /repo's working tree and runs it. Exit 0: held; 1: violated.
# Anything else is an error of the check itself.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1; tier=${2:-${VERIF_TIER:-quick}}
repo=${VMC_REPO:-/repo}
case $id in
C01|C02|C03|C04|C05|C07|C08|C09|C10|C11|C12|C14|C29|C31) h=core ;;
C15|C16|C17|C18|C32) h=jobs ;;
C06|C28|C33) h=crash ;;
C19|C20) h=db ;;
C13|C21|C22|C23|C27) h=eopkg ;;
C24|C25|C26|C30|C34) h=server ;;
*) echo "unknown property $id"; exit 2 ;;
esac
base=/dev/shm; [ -w $base ] && [ "$(df --output=avail -k $base 2>/dev/null | tail -1)" -gt 1000000 ] || base=/tmp
tmp=$(mktemp -d "$base/vmc.XXXXXX") || exit 2
trap 'rm -r -f "$tmp"' EXIT
fail() { echo "$1"; tail -40 "$tmp/log"; exit 2; }
mkdir -p "$tmp/ov" "$tmp/run" "$tmp/tmp"
export TMPDIR="$tmp/tmp"
(cd "$here/tools/instr" && go build -o "$tmp/instr" .) >"$tmp/log" 2>&1 || fail "cannot build the instrumenter"
"$tmp/instr" "$repo" "$here" "$tmp/ov" >"$tmp/log" 2>&1 || fail "cannot instrument the repository"
cp "$repo/go.mod" "$tmp/ov/go.mod"; cp "$repo/go.sum" "$tmp/ov/go.sum"
build() { (cd "$repo" && go build "$@" -overlay "$tmp/ov/overlay.json" -modfile "$tmp/ov/go.mod" -o "$tmp/bin" "./src/verifmc/h/$h") >"$tmp/log" 2>&1; }
# the part that needs core's file helpers is left out of trees that do not export them
{ [ "$id" = C02 ] && build -tags withcopies; } || build || fail "cannot build the harness"
export VMC_TMP="$tmp/run" VMC_VERIF="$here" VMC_TIER="$tier"
if [ "$tier" = replay ]; then export VMC_TIER=quick VMC_REPLAY="$3"; fi
ulimit -c 0
"$tmp/bin" "$id" >"$tmp/out" 2>"$tmp/log"; rc=$?
cat "$tmp/out"
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then echo "harness ended with $rc"; tail -60 "$tmp/log"; fi
exit $rc
