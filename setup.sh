#!/bin/bash
# Builds the machinery once around /repo's current tree (checks rebuild it themselves).
cd "$(dirname "$(realpath "$0")")" || exit 2
. ./env.sh
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
RACE=1
build "$W" && "$W/harness" -list | wc -l
