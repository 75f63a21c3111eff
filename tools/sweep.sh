#!/bin/bash
# Runs each seeded bug's check on a scratch copy of /repo: sweep.sh [id...]
cd "$(dirname "$0")/../seeded" || exit 2
S=/tmp/sweeprepo
ids=${*:-$(ls)}
for id in $ids; do
  rm -rf /tmp/sweeprepo; cp -a /repo $S; git -C $S checkout -q -- .
  git -C $S apply "$PWD/$id/patch.diff" || { echo "$id APPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  t0=$(date +%s)
  out=$(REPO=$S ../check.sh check -prop $p -tier quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-t0))s $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-60) $([ $rc != 1 ] && echo "$out" | tail -3 | tr '\n' '|')"
done
rm -rf /tmp/sweeprepo
