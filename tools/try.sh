#!/bin/bash
# try.sh PATCH CHECK... : applies PATCH to /repo, runs the quick checks, and undoes it
p=$(realpath "$1"); shift
cd "$(dirname "$0")/.."
git -C /repo apply "$p" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
export VERIF_TMPEV=$(mktemp -d /tmp/tryev.XXXX)
for c in "$@"; do
  s=$(date +%s.%N)
  o=$(./run.sh $c quick 2>&1); rc=$?
  printf "%s rc=%d %.1fs %s\n" $c $rc $(echo "$(date +%s.%N)-$s" | bc) "$(echo "$o" | grep -A3 -m1 VIOLATION | cut -c1-220 | tr '\n' ' ')"
done
rmdir $VERIF_TMPEV
