#!/bin/bash
# usage: bash run.sh ID [--replay FILE]
# Builds the monitors from /repo's current working tree and runs those of the
# property ID. Exit 0: held; exit 1 and a VIOLATION line: broken; exit 2: no answer.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: run.sh ID [--replay FILE]}
. "$ROOT/env.sh"
WORK=off VERIF_ROOT=$ROOT
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 2
trap 'rm -rf -- "$WORK"' EXIT
trap 'exit 2' INT TERM HUP
# go.mod and go.sum are copied, so that the committed ones stay as they are
cp "$ROOT/harness/go.mod" "$ROOT/harness/go.sum" "$WORK/" || exit 2
FLAGS=()
# the reference model only computes and needs no instrumentation
[ "$ID" = G02 ] && FLAGS+=(-race "-gcflags=verif/harness/ref=-race=false")
# counters and traced comparisons in libsv's code guide the workload; not where
# races are looked for, or time or memory is measured
case $ID in G02 | G03 | G04 | G05) ;; *) FLAGS+=("-gcflags=github.com/libsv/libsv/...=-d=libfuzzer") ;; esac
# a platform with 32-bit words
[ "$ID" = G05 ] && export GOARCH=386 CGO_ENABLED=0
cd "$ROOT/harness" || exit 2
if ! go build -modfile "$WORK/go.mod" "${FLAGS[@]}" -o "$WORK/harness" . ; then
	echo "$ID: the harness does not build against /repo" >&2
	exit 2
fi
cd "$ROOT" || exit 2
if [ "${2:-}" = --replay ]; then
	"$WORK/harness" replay "${3:?--replay FILE}"
else
	"$WORK/harness" check "$ID"
fi
