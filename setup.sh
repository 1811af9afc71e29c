#!/bin/bash
# Builds the monitors once (into the Go build cache only) and runs the
# self-test of the reference models.
set -eu
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/env.sh"
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX")
trap 'rm -rf -- "$WORK"' EXIT
cp "$ROOT/harness/go.mod" "$ROOT/harness/go.sum" "$WORK/"
cd "$ROOT/harness"
go build -modfile "$WORK/go.mod" "-gcflags=github.com/libsv/libsv/...=-d=libfuzzer" -o "$WORK/harness" .
"$WORK/harness" selftest
echo "setup done: $("$WORK/harness" list | wc -l) properties"
