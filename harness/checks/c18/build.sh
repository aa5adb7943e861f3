#!/bin/bash
# instruments copies of the packages that visit maps, so that the check decides the order
set -e
tmp=$1
cd "$(dirname "$0")/../.."
mkdir -p "$tmp/ov"
go build -o "$tmp/instrument" ./cmd/instrument
"$tmp/instrument" -out "$tmp/ov" -order store/memory,page,utils
go build -o "$tmp/cacheproxy" github.com/DaoCloud/ckube/cmd/cacheproxy
go build -overlay "$tmp/ov/overlay.json" -o "$tmp/c18" ./checks/c18
