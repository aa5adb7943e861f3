#!/bin/bash
# instruments copies of the concurrent packages and builds the check with the race detector
set -e
tmp=$1
cd "$(dirname "$0")/../.."
mkdir -p "$tmp/ov"
go build -o "$tmp/instrument" ./cmd/instrument
"$tmp/instrument" -out "$tmp/ov" -sync store/memory,page,utils,common,watcher -order store/memory,page,utils
go build -overlay "$tmp/ov/overlay.json" -o "$tmp/c02" ./checks/c02
go build -race -overlay "$tmp/ov/overlay.json" -o "$tmp/c02.race" ./checks/c02
