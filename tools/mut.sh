#!/bin/bash
# usage: mut.sh "C01 C02" file sed-script    applies a mutation in a scratch copy, builds, tests, runs the checks on it
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo "$d/r"
cd "$d/r"
if [ -f "$2" ] && [[ "$2" == *.diff ]]; then git apply "$2" || echo NOAPPLY; else
cp "$2" "$d/orig"; sed -i -E "$3" "$2"
if cmp -s "$2" "$d/orig"; then echo "NO CHANGE"; fi; fi
git diff -U0 | grep '^[-+]' | grep -v '^+++\|^---' | head -8
. /verif/env.sh
go build ./internal/... >"$d/out" 2>&1 && go vet ./cmd/nightlight >>"$d/out" 2>&1 || { grep -v "^#" "$d/out" | head -3; }
NL_REPO=$d/r NL_VERIF=$d /verif/.build/nlverify $1 2>&1 | grep -v "^  rule" | grep -v undecided: | head -${LINES_MAX:-12}
rm -rf "$d"
