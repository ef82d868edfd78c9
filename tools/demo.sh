#!/bin/bash
# runs the demonstration test beside this file in the repository that is the current directory
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod TMPDIR=$t
pkg=$(cat "$d/pkg")
echo "{\"Replace\":{\"$PWD/$pkg/zz_seed_test.go\":\"$d/demo_test.go\"}}" > "$t/o.json"
go test -count=1 -vet=off -timeout 120s -overlay "$t/o.json" -run '^TestSeed' "./$pkg"
