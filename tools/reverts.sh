#!/bin/bash
# reverts.sh [COMMIT...]: for every fix listed in KNOWN_FINDINGS.txt, undoes it in a copy of /repo
# and runs the check of its property (in a copy of /verif that builds from the copy); it should fire.
cd "$(dirname "$0")/.."
V=$PWD
rm -rf /tmp/rv /tmp/vf
cp -a /repo /tmp/rv
mkdir /tmp/vf && cp -a harness run.sh env.sh setup.sh /tmp/vf/
sed -i 's|=> /repo|=> /tmp/rv|' /tmp/vf/harness/go.mod
sed -i "s|VERIF_DIR=.*|VERIF_DIR=/tmp/vf|" /tmp/vf/env.sh
grep '^fixed:' KNOWN_FINDINGS.txt | while read -r _ p h what; do
  p=${p#property=}
  [ $# -gt 0 ] && ! echo " $* " | grep -q " $h " && continue
  git -C /tmp/rv reset -q --hard
  if ! git -C /tmp/rv show $h | git -C /tmp/rv apply -R --3way 2>/dev/null; then
    echo "$h $p CONFLICT: $what"; git -C /tmp/rv reset -q --hard; continue
  fi
  o=$(/tmp/vf/run.sh $p quick 2>&1 </dev/null); rc=$?
  echo "$h $p rc=$rc $(echo "$o" | grep -A1 -m1 VIOLATION | tail -1): $what"
done
rm -rf /tmp/rv /tmp/vf
