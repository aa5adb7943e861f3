#!/bin/bash
# usage: newseed.sh ID PROPERTY PKG   (edits already made in the scratch copy /tmp/sr; demo_test.go in /tmp/sd/demo_test.go,
# /tmp/sd/needs and /tmp/sd/breaks hold the texts). Validates and stores /verif/seeded/ID.
# FLAGS: go test flags for the demo, such as -race.
id=$1 prop=$2 pkg=$3
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/sr diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in /tmp/sr"; exit 1; }
if [ -f /tmp/sd/demo.sh ]; then cp /tmp/sd/* "$d/"; rm -f "$d/needs" "$d/breaks"; else
cp /tmp/sd/demo_test.go "$d/demo_test.go.txt"
cat > "$d/demo.sh" <<X
#!/bin/bash
# runs demo_test.go.txt as a test of ./$pkg
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
tmp=\$(mktemp -d)
trap 'rm -rf "\$tmp"' EXIT
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$here/demo_test.go.txt\"}}" > "\$tmp/overlay.json"
go test -overlay "\$tmp/overlay.json" -vet=off -count=1 -timeout 120s $FLAGS -run '^TestDemo\$' ./$pkg
X
fi
python3 - "$d" "$prop" <<'X'
import json,sys
d,p=sys.argv[1:]
json.dump({"property":p,"needs":open("/tmp/sd/needs").read().strip(),"what_it_breaks":open("/tmp/sd/breaks").read().strip()},open(d+"/meta.json","w"),indent=1,ensure_ascii=False)
X
bash /verif/tools/checkseed.sh "$id"
