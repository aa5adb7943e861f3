#!/bin/bash
# run.sh CXX quick|thorough [FAMILY]    build check CXX from /repo's working tree and run it
# run.sh CXX replay FILE                run one recorded case again
# exit 0: held; 1: violation (VIOLATION line); 2: the check could not be built
set -u
. "$(dirname "$0")/env.sh"
id=$(echo "$1" | tr A-Z a-z); shift
tmp=$(mktemp -d /tmp/ckubemc.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export CKUBEMC_TMP=$tmp
cd "$VERIF_DIR/harness" || exit 2
if [ -x "checks/$id/build.sh" ]; then
  "checks/$id/build.sh" "$tmp" || { echo "build of $id failed" >&2; exit 2; }
else
  go build -o "$tmp/$id" "./checks/$id" || { echo "build of $id failed" >&2; exit 2; }
fi
"$tmp/$id" "$@"
