# allquick.sh [ids]: runs the quick checks against /repo, one after another; prints those which are not quiet, and the times
cd /verif
for i in ${@:-$(python3 -c "import json;print(*[c['id'] if 'id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s); bash check.sh $i quick > /tmp/o/q.$i 2>&1; rc=$?
  echo "$i rc=$rc $(( $(date +%s)-s ))s"; [ $rc = 0 ] || grep -m6 -A1 VIOL /tmp/o/q.$i | cut -c1-300
done
