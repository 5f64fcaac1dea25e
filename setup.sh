#!/bin/bash
# Checks that the harnesses build from the committed files.
set -eu
cd "$(dirname "$0")"
. ./env.sh
tmp=$(mktemp -d /tmp/vmcsetup.XXXXXX); trap 'rm -r -f "$tmp"' EXIT
export TMPDIR="$tmp"
(cd tools/instr && go build -o "$tmp/instr" .)
mkdir "$tmp/ov" "$tmp/bin"; "$tmp/instr" "${VMC_REPO:-/repo}" "$PWD" "$tmp/ov"
cp /repo/go.mod /repo/go.sum "$tmp/ov/"
cd "${VMC_REPO:-/repo}" && go build -overlay "$tmp/ov/overlay.json" -modfile "$tmp/ov/go.mod" -o "$tmp/bin/" ./src/verifmc/h/...
