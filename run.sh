#!/bin/bash
# usage: run.sh <property>...   builds the analyzer if needed, then runs the given checks against /repo
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
export NL_VERIF="$here"
. "$here/env.sh"
exec "$here/.build/nlverify" "$@"
