#!/bin/bash
# tools/catch.sh seeded/ID [CHECK]: run the property's check against the patched tree (private copy bind-mounted over /repo)
S=$(realpath "$1"); C=${2:-$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")}
W=/tmp/catch_$(basename "$S")_$C; cp -a /repo "$W" || exit 2
unshare -Urm bash -c "mount --bind $W /repo; git -C /repo apply $S/patch.diff || echo NOAPPLY; cd /verif; /usr/bin/time -f %es python3-vt check.py $C --tier quick 2>&1 | grep -v '^KNOWN' | tail -4; "
rm -rf "$W"
