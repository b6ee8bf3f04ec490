#!/bin/bash
# replay.sh PROPERTY FILE SECONDS: look for an input on which the real code
# breaks the property. Exit 1 and write FILE when one is found, 0 otherwise.
# The code under test is /repo's working tree; the harness is laid over it.
cd "$(dirname "$0")" || exit 0
P=$1 FILE=$2 SECONDS_MAX=${3:-60}
REPO=${REPO:-/repo}
DIR=$PWD/replay
WORK=$(mktemp -d) || exit 0
trap 'rm -rf "$WORK"' EXIT
case $FILE in /*) ;; *) FILE=$PWD/$FILE ;; esac
mkdir -p "$(dirname "$FILE")"
rm -f -- "$FILE"
cat > "$WORK/overlay.json" <<J
{"Replace": {
"$REPO/verifreplay/arand/arand.go": "$DIR/arand.go",
"$REPO/verifreplay/main_test.go": "$DIR/main_test.go",
"$REPO/verifreplay/lib_test.go": "$DIR/lib_test.go",
"$REPO/verifreplay/unit_test.go": "$DIR/unit_test.go",
"$REPO/verifreplay/server_test.go": "$DIR/server_test.go",
"$REPO/verifreplay/history_test.go": "$DIR/history_test.go",
"$REPO/verifreplay/kit_test.go": "$DIR/kit_test.go",
"$REPO/verifreplay/probes_test.go": "$DIR/probes_test.go"
}}
J
RACE=
[ "$P" = A10 ] && RACE=-race
cp "$REPO/go.mod" "$WORK/go.mod"; cp "$REPO/go.sum" "$WORK/go.sum"
export GOFLAGS=-mod=mod
if ! (cd "$REPO" && timeout 120 go test -c $RACE -vet=off -modfile="$WORK/go.mod" -overlay="$WORK/overlay.json" -o "$WORK/replay.test" ./verifreplay) > "$WORK/build.log" 2>&1; then
  tail -20 "$WORK/build.log"; echo "replay: cannot build the harness"; exit 0
fi
cd "$WORK"
VERIF_PROP=$P VERIF_SECONDS=$SECONDS_MAX VERIF_SEED=${VERIF_SEED:-1} VERIF_OUT=$FILE GORACE="halt_on_error=1 exitcode=66" \
  timeout $((SECONDS_MAX + 60)) ./replay.test -test.run TestVerifReplay -test.timeout 0 > "$WORK/out.log" 2>&1
rc=$?; [ -n "$REPLAY_LOG" ] && cp "$WORK/out.log" "$REPLAY_LOG"
if [ -s "$FILE" ]; then exit 1; fi
if [ $rc -eq 66 ] && grep -q 'WARNING: DATA RACE' "$WORK/out.log"; then
  { echo "property $P is broken by the running code: a data race under concurrent requests"; cat "$WORK/out.log"; } > "$FILE"
  exit 1
fi
tail -3 "$WORK/out.log"
exit 0
