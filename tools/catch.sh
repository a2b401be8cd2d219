#!/bin/bash
# tools/catch.sh [bug id ...]: apply each planted bug to a scratch clone of /repo and run its property's quick check on it
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/catch; rm -rf /tmp/catch; mkdir -p $W
git clone -q /repo $W/repo
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls $V/seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git -C $W/repo checkout -q -- . && git -C $W/repo apply $V/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  out=$(cd $V && LN_REPO=$W/repo LN_BUILD=$W/build python3 run.py $p --tier quick 2>&1); rc=$?
  [ -n "$ALL" ] && echo "$out"
  echo "$i ($p): rc $rc $(echo "$out" | grep -m1 'case ' | cut -c1-200)"
  rm -rf $W/build
done
rm -rf /tmp/catch
