#!/bin/bash
# run.sh PROPERTY [quick|thorough] : builds the explorer from /repo's working tree and runs one check.
# run.sh --build: builds both explorers only.  run.sh --replay FILE: re-executes a recorded case.
[ "$1" = --replay ] && set -- --replay "$(realpath "$2")"
cd "$(dirname "$0")" || exit 3
V=$PWD
. "$V/harness/env.sh"
B=$(mktemp -d) || exit 3
trap 'rm -rf "$B"' EXIT
build() { # $1: race or seq
  go build -o "$B/xform" ./cmd/xform && "$B/xform" -repo /repo -inject "$V/harness/inject/verifsync" -out "$B" || return 1
  if [ "$1" = race ]; then
    CGO_ENABLED=1 go build -race -overlay "$B/overlay.json" -o "$B/mc" ./mc
  else
    go build -overlay "$B/overlay.json" -o "$B/mc" ./mc
  fi
}
cd harness || exit 3
P=$1
if [ "$P" = --build ]; then
  build seq && build race; exit $?
fi
FLAVOUR=seq
if [ "$P" = --replay ]; then
  grep -q '"kind": *"conc' "$2" && FLAVOUR=race
  build $FLAVOUR || { echo "build failed" >&2; exit 3; }
  GORACE="halt_on_error=0 atexit_sleep_ms=0 exitcode=0" "$B/mc" -replay "$2"; exit $?
fi
case "$P" in C14|C15|C16) FLAVOUR=race;; esac
build $FLAVOUR || { echo "build failed" >&2; exit 3; }
"$B/mc" -prop "$P" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$V" ${MC_FLAGS:-}
