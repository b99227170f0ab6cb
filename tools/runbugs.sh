#!/bin/bash
# runbugs.sh [ID...] -- apply each planted bug to a scratch copy of /repo and run its property's check on it
cd /verif
w=$(mktemp -d /tmp/runbugs.XXXXXX)
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    rm -rf "$w/repo"
    cp -a /repo "$w/repo"
    git -C "$w/repo" apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
    out=$(VERIF_REPO="$w/repo" VERIF_SEED=1 timeout 900 python3-vt check.py $p 2>&1); rc=$?
    echo "$d $p rc=$rc $(grep -E 'VIOLATION|failed obl|solver' <<<"$out" | tr '\n' '|')"
done
rm -rf "$w"
