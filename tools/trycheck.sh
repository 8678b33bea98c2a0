#!/bin/bash
# trycheck.sh SEED [Cxx]: apply a seeded change to /repo, run the check, undo.
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
cd /verif; t0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt run.py $p --tier quick >/tmp/try_$1.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(($(date +%s)-t0))s $(grep VIOLATION /tmp/try_$1.out | cut -c1-160)"
