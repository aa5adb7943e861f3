#!/bin/bash
# usage: checkseed.sh ID: does the planted bug apply, build, pass the stable tests, and does its demo tell?
# Works on a bind-free copy: the demo's cwd is a copy of /repo in /tmp/cs.
id=$1
d=/verif/seeded/$id
rm -rf /tmp/cs /tmp/csd
cp -a /repo /tmp/cs
mkdir /tmp/csd; cp "$d"/* /tmp/csd/; rm -f /tmp/csd/*.diff /tmp/csd/meta.json
cd /tmp/cs || exit 1
git checkout -q -- .
bash /tmp/csd/demo.sh > /tmp/cs.log 2>&1 && echo "$id clean demo ok" || { echo "$id FAIL: demo fails on the clean tree"; tail -20 /tmp/cs.log; }
git apply "$d/patch.diff" || { echo "$id FAIL: does not apply"; exit 1; }
. /opt/vp/env.sh
go build ./... || { echo "$id FAIL: does not build"; exit 1; }
go test -vet=off -count=1 $(go list -e ./... | grep -vx 'github.com/DaoCloud/ckube/pkg/client/fake') > /tmp/cs.tests 2>&1 || { echo "$id FAIL: tests"; grep -v "no test files" /tmp/cs.tests | tail -20; }
if bash /tmp/csd/demo.sh > /tmp/cs.log 2>&1; then echo "$id FAIL: demo passes with the patch"; else echo "$id patched demo fails as it should:"; grep -m3 -i "demo\|race\|panic\|fail" /tmp/cs.log | cut -c1-300; fi
git diff --name-only | grep -i "_test.go\|tests/" && echo "$id FAIL: touches tests"
# does it change lines of the original repository?
git diff -U0 | python3 -c '
import re,sys,subprocess
f=None;orig=0;mine=0
for l in sys.stdin:
    m=re.match(r"--- a/(.*)",l)
    if m: f=m.group(1)
    m=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
    if m and f:
        a=int(m.group(1)); n=int(m.group(2) or 1)
        if n==0:
            continue
        for b in subprocess.run(["git","blame","-s","-L",f"{a},{a+n-1}","HEAD","--",f],capture_output=True,text=True).stdout.splitlines():
            if b.startswith("^"): orig+=1
            else: mine+=1
print("removed lines: original",orig,"own",mine)'
cd /; rm -rf /tmp/cs /tmp/csd /tmp/cs.log /tmp/cs.tests
