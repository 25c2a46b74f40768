#!/bin/bash
# trybug.sh ID: demo without, then with the change (tests too), then the check of its property.
s="/verif/seeded/$1"; prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
(cd /repo; "$s/demo.sh" >/tmp/demo.out 2>&1); echo "demo clean: $? (0 wanted)"
git -C /repo apply "$s/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
(cd /repo; "$s/demo.sh" >/tmp/demo2.out 2>&1); echo "demo with bug: $? (nonzero wanted) $(tail -1 /tmp/demo2.out)"
if [ "$2" != fast ]; then bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/bug.test.json 2>&1 | tail -1; fi
timeout 600 /verif/check.sh "$prop" 2>&1 | grep -v "^  probes" | tail -4
