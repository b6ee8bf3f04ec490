#!/bin/bash
# seedrun.sh [ID...]: run the check of each planted bug's property on a scratch copy with the bug.
cd "$(dirname "$0")/.." || exit 2
[ $# -eq 0 ] && set -- $(ls seeded)
for id; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/seedrun.$$; cp -a /repo $w && git -C $w apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch fails"; rm -rf "$w"; continue; }
  s=$(date +%s)
  out=$(REPO=$w VERIF_SEED=1 timeout 900 ./check.sh "$p" quick 2>&1); rc=$?
  e=$(date +%s)
  echo "$id rc=$rc $((e-s))s $(echo "$out" | grep VIOLATION) | $(echo "$out" | grep -m1 'first:\|FAILED' | cut -c1-160)"
  rm -rf "$w"
done
