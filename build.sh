#!/bin/bash
# builds the analyzer into .build/ (offline, from the committed sources and the local module cache)
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/.build"
cd "$here/analyzer" || exit 2
go build -o "$here/.build/nlverify" . 
