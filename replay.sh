#!/bin/bash
# usage: replay.sh PROPERTY SCENARIO TIER 'c1,c2,...'   (re-executes one recorded execution)
cd "$(dirname "$(realpath "$0")")" || exit 2
. ./env.sh
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
RACE=0; [ "$1" = C30 ] && RACE=1
build "$W" || exit 2
B=$W/harness; [ $RACE = 1 ] && B=$W/harness-race
"$B" -worker "$1/$2" -tier "${3:-quick}" -doreplay -replay "$4" -out "$W/out.json"
python3 - "$W/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1]))
r=o.get("Replayed")
if not r: print("passed"); sys.exit(0)
for m in r["messages"]: print("FAIL:",m)
for l in r["log"] or []: print("  ",l)
P
