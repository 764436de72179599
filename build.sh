#!/bin/bash
# Builds /repo's working tree together with the simulator into /verif/.build.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh 2>/dev/null || true
export PATH="$PATH:/usr/local/go/bin"
here=$PWD
repo=${VERIF_REPO:-/repo}
out=$here/.build
mkdir -p "$out"
export GOCACHE=$out/cache GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOEXPERIMENT=norandomizedheapbase64
goroot=$(cd "$repo" && go env GOROOT)
python3 sim/overlay.py "$goroot" "$repo" "$out"
cd "$repo"
go build -buildvcs=false -overlay "$out/overlay.json" -ldflags=-checklinkname=0 -o "$out/simbin.new" ./cmd/neojhat
mv "$out/simbin.new" "$out/simbin"
