#!/bin/bash
# refrun.sh [ID[:PROPS]...]: run the listed checks on scratch copies with behaviour-preserving edits; they have to stay quiet.
cd "$(dirname "$0")/.." || exit 2
[ $# -eq 0 ] && set -- $(ls tools/refactors/*.diff | xargs -n1 basename | sed 's/\.diff$//')
for a; do
  id=${a%%:*}; props=$(cat "tools/refactors/$id.props"); case $a in *:*) props=$(echo "${a#*:}" | tr , ' ');; esac
  w=/tmp/refrun.$$; cp -a /repo $w && git -C $w apply "$PWD/tools/refactors/$id.diff" || { echo "$id: patch fails"; rm -rf "$w"; continue; }
  for p in $props; do
    s=$(date +%s); st=contracts
    timeout 450 ${GV:-bin/gocv} -repo $w -contracts contracts -lemmas lemmas -prop $p -tier quick -stage contracts -evidence /tmp/refrun.ev.$$ -replay /tmp/refrun.rp.$$ > /tmp/refrun.out.$$ 2>&1; rc=$?
    if [ $rc -ne 0 ]; then st=bodies; f=$(grep -m1 'FAILED' /tmp/refrun.out.$$ | cut -c1-200)
      timeout 270 ${GV:-bin/gocv} -repo $w -contracts contracts -lemmas lemmas -prop $p -tier quick -stage bodies -evidence /tmp/refrun.ev.$$ -replay /tmp/refrun.rp.$$ > /tmp/refrun.out.$$ 2>&1; rc=$?
      f="$f || $(grep -m1 'FAILED' /tmp/refrun.out.$$ | cut -c1-200)"; else f=; fi
    echo "$id $p rc=$rc $st $(( $(date +%s)-s ))s $f"
  done
  rm -rf "$w" /tmp/refrun.*.$$
done
