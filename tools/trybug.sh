#!/bin/bash
# trybug.sh ID [PROP]: runs the check of the bug's property (or PROP) with the bug applied to /repo, and undoes it
i=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$i/patch.diff || exit 1
cd /verif; /usr/bin/time -f %es python3 vlib/check.py $p > /tmp/try.$i.out 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$i $p rc=$rc $(grep -a VIOLATION /tmp/try.$i.out)"
python3 - <<P
import json
try:
    e=json.load(open('/verif/evidence/replay-$p.json')); print('   ', str(e)[:400])
except Exception as x: print('   no replay', x)
P
