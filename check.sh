#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
P=$1; TIER=${2:-${VERIF_TIER:-quick}}
export HOME=${HOME:-/root} LC_ALL=C.UTF-8
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
REPO=${REPO:-/repo}
mkdir -p bin evidence
(cd gocv && go build -o ../bin/gocv .) || { echo "cannot build the verifier"; exit 2; }
[ "$P" = "--build" ] && exit 0
OUT=evidence/replay
rm -f "$PWD/$OUT/$P.json" "$PWD/$OUT/$P.txt"
verify() { # STAGE
  timeout -k 5 "$2" bin/gocv -repo "$REPO" -contracts contracts -lemmas lemmas -prop "$P" -tier "$TIER" -stage "$1" -evidence "evidence/$P.json" -replay "$OUT"
}
mkdir -p "$OUT"
failed() { # exit code: make sure that the failure is described
  [ "$1" -eq 1 ] && [ -s "$OUT/$P.json" ] || echo "{\"property\": \"$P\", \"note\": \"the verifier ended with exit code $1 and proved nothing\"}" > "$OUT/$P.json"
}
verify contracts 450; rc=$?
if [ $rc -eq 0 ]; then
  if [ "$TIER" = thorough ]; then
    # bounded tests of the library facts that the proof assumes
    (cd conform && go run .) || exit 2
    # an independent, bounded cross-check on the running code; never counted as proof
    if ! ./replay.sh "$P" "$OUT/$P.txt" 200; then
      echo "VIOLATION property=$P replay=$PWD/$OUT/$P.txt"; exit 1
    fi
  fi
  exit 0
fi
failed $rc
# The proof failed: look for an input on which the running code breaks the property.
if ! ./replay.sh "$P" "$OUT/$P.txt" 40; then
  { echo; echo "failed proof obligations:"; cat "$OUT/$P.json"; } >> "$OUT/$P.txt"
  echo "VIOLATION property=$P replay=$PWD/$OUT/$P.txt"
  exit 1
fi
# The contracts of helper functions may no longer fit while the property holds:
# prove it without them.
verify bodies 270; rc=$?
[ $rc -eq 0 ] && exit 0
failed $rc
echo "VIOLATION property=$P replay=$PWD/$OUT/$P.json no-failing-input-found"
exit 1
