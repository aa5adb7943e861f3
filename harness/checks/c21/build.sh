#!/bin/bash
# the check and the real plugin and CLI binaries, all from /repo's working tree
set -e
tmp=$1
cd "$(dirname "$0")/../.."
go build -o "$tmp/ckube-plugin" github.com/DaoCloud/ckube/cmd/ckube-plugin
go build -o "$tmp/ckubecli" github.com/DaoCloud/ckube/cmd/ckubecli
go build -o "$tmp/c21" ./checks/c21
