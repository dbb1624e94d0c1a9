#!/bin/bash
# run.sh setup | run.sh ID [quick|thorough] | run.sh replay FILE
# Builds the checker from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
B="$PWD/mc/.bin"
mkdir -p "$B"
build() { # name, go build arguments
  local n="$1"; shift
  (cd mc && go build "$@" -o "$B/$n.$$" . && mv "$B/$n.$$" "$B/$n") >"$B/build.log" 2>&1 || { cat "$B/build.log"; echo "build failed"; exit 2; }
}
build mc
case "$1" in setup|replay|C15|C21)  # control of map iteration order
  python3 tools/overlay.py "$B/map" >"$B/build.log" 2>&1 || { cat "$B/build.log"; exit 2; }
  build mc-map -overlay "$B/map/map.json" -tags mapctl -ldflags=-checklinkname=0
esac
case "$1" in setup|replay|C21)  # control of the schedule, with the race detector
  (cd instr && go run . /repo "$B/sched") >"$B/build.log" 2>&1 || { cat "$B/build.log"; exit 2; }
  build mc-race -race -overlay "$B/sched/sched.json" -tags sched
esac
[ "$1" = setup ] && exit 0
[ "$1" = replay ] && VERIF_DIR="$PWD" exec "$B/mc" replay "$2"
VERIF_DIR="$PWD" exec "$B/mc" run "$1" "${2:-${VERIF_TIER:-quick}}"
