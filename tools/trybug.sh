#!/bin/bash
# trybug.sh ID [property...]: applies a planted bug to /repo, runs checks, undoes it
d=/verif/seeded/$1; id=$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply "$d/patch.diff" || exit 2
for x in $p; do s=$(date +%s); bash /verif/check.sh $x quick > /tmp/try.$x 2>&1; rc=$?; echo "$id $x rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/try.$x) $(grep -m1 VIOLATION /tmp/try.$x | cut -c1-150)"; done
git -C /repo checkout -- .
