#!/bin/bash
# the check and the real server binary, both from /repo's working tree
set -e
tmp=$1
cd "$(dirname "$0")/../.."
go build -o "$tmp/cacheproxy" github.com/DaoCloud/ckube/cmd/cacheproxy
go build -o "$tmp/c17" ./checks/c17
