#!/bin/bash
# usage: seedcheck.sh ID...   confirms planted changes in a scratch copy: applies, builds, stable tests, demo, checks
for id in "$@"; do
  s=/verif/seeded/$id
  t=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$t/r"; cp -a "$s" "$t/s"
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd "$t/r"
  ( cd "$t/r" && timeout 300 bash "$t/s/demo.sh" >"$t/d0" 2>&1 ); d0=$?
  git apply "$s/patch.diff" || { echo "$id: NOAPPLY"; rm -rf "$t"; continue; }
  . /opt/vp/env.sh
  pk=$(go list -e ./... | grep -Ev "$LEFT_OUT")
  go build -tags=jsoniter $pk >"$t/b" 2>&1; b=$?
  gofmt -e web internal/rest cmd/nightlight >/dev/null 2>&1 || b=gofmt
  go test -json -vet=off -count=1 $pk 2>/dev/null | python3 -c "
import sys,json
want=set(json.load(open('/opt/vp/BASELINE.json')).get('tests',[])) if 0 else None
p=[];f=[]
for l in sys.stdin:
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Test'):
        if d['Action']=='pass': p.append(d['Test'])
        if d['Action']=='fail': f.append(d['Test'])
print('tests pass',len(p),'fail',f)" >"$t/tt"
  ( cd "$t/r" && timeout 300 bash "$t/s/demo.sh" >"$t/d1" 2>&1 ); d1=$?
  ( . /verif/env.sh; NL_REPO=$t/r NL_VERIF=$t /verif/.build/nlverify ${CHECKS:-$prop} >"$t/c" 2>&1 ); c=$?
  echo "$id ($prop): build=$b $(cat $t/tt) demo clean=$d0 patched=$d1 check=$c"
  [ $d0 != 0 ] && tail -20 "$t/d0"
  [ $d1 == 0 ] && tail -20 "$t/d1"
  [ -n "$V" ] && { tail -15 "$t/d1"; grep -v '^  rule' "$t/c" | head -20; }
  rm -rf "$t"
done
