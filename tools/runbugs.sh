#!/bin/bash
# runbugs.sh [ID...]: apply each planted bug to a scratch clone of /repo and run its property's check (from a scratch copy of /verif) on it
W=$(mktemp -d /tmp/runbugs.XXXX); trap 'rm -r "$W"' EXIT
cp -a /verif "$W/verif"; git clone -q /repo "$W/repo"; cd "$W/verif"
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
 git -C "$W/repo" apply "$W/verif/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
 QK_REPO="$W/repo" python3-vt check.py $p > "$W/log" 2>&1; rc=$?
 git -C "$W/repo" checkout -q -- .
 echo "$d $p rc=$rc $(head -1 "$W/log")"; grep VIOLATION "$W/log"
done
