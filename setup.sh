#!/bin/bash
# Builds the explorer once, so that a broken toolchain shows up before any check runs.
cd "$(dirname "$0")" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
if [ -z "$GOCACHE" ] && [ ! -d "${HOME:-/nonexistent}/.cache/go-build" ]; then
  export GOCACHE="$PWD/.build/gocache"
fi
mkdir -p .build evidence
printf '{"Replace":{"/repo/go.mod":"%s"}}' "$PWD/mc/ini.go.mod" > .build/setup-overlay.json
cd mc && go build -overlay ../.build/setup-overlay.json -o ../.build/setup-bin ./cmd/inimc && rm -f ../.build/setup-bin ../.build/setup-overlay.json
