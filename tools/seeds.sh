#!/bin/bash
# seeds.sh [id...]: runs the check of each planted bug's property against a scratch copy with the bug
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for s in "$@"; do
    id=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
    d=$(mktemp -d /tmp/seedrun.XXXXXX)
    mkdir $d/repo; git -C /repo archive HEAD | tar -x -C $d/repo
    git -C $d/repo init -q; git -C $d/repo apply /verif/seeded/$s/patch.diff || continue
    t0=$SECONDS
    HZV_REPO=$d/repo python3 hzv.py check $id > /tmp/seed.$s.out 2>&1; rc=$?
    rm -rf "$d"
    echo "$s $id rc=$rc $((SECONDS - t0))s $(grep -m1 '  what:' /tmp/seed.$s.out)"
done
