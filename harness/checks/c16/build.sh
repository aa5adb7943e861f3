#!/bin/bash
# instruments copies of the concurrent packages and builds the check with the race detector
set -e
tmp=$1
cd "$(dirname "$0")/../.."
mkdir -p "$tmp/ov"
go build -o "$tmp/instrument" ./cmd/instrument
"$tmp/instrument" -out "$tmp/ov" -sync store/memory,page,utils,common,watcher,server,api,api/extend,kube -order store/memory,page,utils,server,api,api/extend,kube,common
go build -overlay "$tmp/ov/overlay.json" -o "$tmp/c16" ./checks/c16
go build -race -overlay "$tmp/ov/overlay.json" -o "$tmp/c16.race" ./checks/c16
go build -o "$tmp/cacheproxy" github.com/DaoCloud/ckube/cmd/cacheproxy
