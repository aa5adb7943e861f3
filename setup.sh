#!/bin/bash
# Warms the build cache: every check is built once from the committed files.
set -u
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR/harness" || exit 1
tmp=$(mktemp -d /tmp/ckubemc.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
export CKUBEMC_TMP=$tmp
rc=0
go build ./... || rc=1
for d in checks/c*/; do
  id=$(basename "$d")
  if [ -x "$d/build.sh" ]; then "$d/build.sh" "$tmp" || rc=1
  else go build -o "$tmp/$id" "./$d" || rc=1; fi
done
exit $rc
