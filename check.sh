#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Rebuilds the harness around /repo's current working tree and explores every
# scenario of the property. Exit 0: held; 1: VIOLATION line; 2: check error.
cd "$(dirname "$(realpath "$0")")" || exit 2
P=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}
. ./env.sh
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
RACE=0; [ "$P" = C30 ] && RACE=1
build "$W" >"$W/build.log" 2>&1 || { cat "$W/build.log" >&2; echo "check error: build failed" >&2; exit 2; }
TMPDIR=$W "$W/harness" -prop "$P" -tier "$TIER" -budget "${VERIF_BUDGET:-0}" -racebin "$W/harness-race" \
  -evidence "$PWD/evidence/$P.json" -replays "$PWD/replays" -findings "$PWD/known_findings.json"
