#!/bin/bash
# check.sh <property> [quick|thorough]      explore one property
# check.sh --replay <file>                  re-run one recorded case
# Builds the explorer from /repo's current working tree, then runs it.
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="${VERIF_ROOT:-$PWD}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
if [ -z "$GOCACHE" ] && [ ! -d "${HOME:-/nonexistent}/.cache/go-build" ]; then
  export GOCACHE="$VERIF_ROOT/.build/gocache"
fi
mkdir -p .build
if [ "$1" = "--replay" ]; then
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 3
else
  prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
fi
work=$(mktemp -d "$VERIF_ROOT/.build/run.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
# /repo/go.mod is ignored by git and may be absent, so the build always uses our copy of it
printf '{"Replace":{"/repo/go.mod":"%s"}}' "$PWD/mc/ini.go.mod" > "$work/overlay.json"
cmd=./cmd/inimc; race=
if [ "$prop" = C22 ]; then
  python3 tools/vsync_overlay.py /repo "$PWD/mc" "$work" || { echo "overlay generation failed"; exit 3; }
  cmd=./cmd/conc; race=-race
fi
(cd mc && go build $race -overlay "$work/overlay.json" -o "$work/bin" $cmd) || { echo "build failed"; exit 3; }
if [ "$1" = "--replay" ]; then
  "$work/bin" -replay "$2"
else
  "$work/bin" -property "$prop" -tier "$tier"
fi
