#!/bin/bash
# tools/trybug.sh seeded/ID : in a private copy of /repo (bind-mounted over /repo in a user namespace):
# apply the patch, build, run the stable tests and the demonstration.
S=$(realpath "$1"); W=/tmp/try_$(basename "$S"); cp -a /repo "$W" || exit 2
D=/tmp/try_demo_$(basename "$S"); mkdir -p "$D"; cp "$S"/demo* "$D"/
unshare -Urm bash -c "mount --bind $W /repo; cd /repo; bash $D/demo.sh >/dev/null 2>&1; echo demo-clean \$?
git apply $S/patch.diff || echo NOAPPLY; bash /opt/vp/test.sh $W.json >$W.log 2>&1; timeout 300 bash $D/demo.sh >$W.demo 2>&1; echo demo-bug \$?"
python3 - "$W.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-r); print('tests failing:',len(m),m[:6])
P
tail -2 "$W.demo" | cut -c1-200
rm -rf "$W" "$D" "$W.json" "$W.log" "$W.demo"
