#!/bin/bash
# usage: matrix.sh [SEED...]: runs, for each planted bug, the quick check of its property; ALL=1: every check
cd /verif/seeded || exit 1
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  echo "== $s ($p)"
  bash /verif/tools/try.sh /verif/seeded/$s/patch.diff ${ALL:-$p} 2>&1 | grep " rc=" | cut -c1-220
done
