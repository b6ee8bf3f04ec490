#!/bin/bash
# seedreplay.sh [ID...]: only the replay of each planted bug's property.
cd "$(dirname "$0")/.." || exit 2
[ $# -eq 0 ] && set -- $(ls seeded)
for id; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/seedrep.$$; cp -a /repo $w && git -C $w apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch fails"; rm -rf "$w"; continue; }
  s=$(date +%s%N)
  REPO=$w VERIF_SEED=1 ./replay.sh "$p" /tmp/seedrep.txt 30 > /tmp/seedrep.log 2>&1; rc=$?
  e=$(date +%s%N)
  echo "$id rc=$rc $(((e-s)/1000000))ms $(grep -m1 FAILED /tmp/seedrep.txt | cut -c1-150) $([ $rc -eq 0 ] && tail -2 /tmp/seedrep.log | tr '\n' ' ')"
  rm -rf "$w" /tmp/seedrep.txt
done
