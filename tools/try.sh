#!/bin/bash
# tools/try.sh <target> <scenario> [workloads] [seed] : build and run one shard, print the result
cd "$(dirname "$0")/.."
B=$(python3 tools/build.py $1 | awk '{print $2}') || exit 2
[ -x "$B" ] || exit 2
$B --scenario $2 --seed ${4:-1} --workloads ${3:-100} --seconds ${SECS:-60} --recheck 10 --out /tmp/o.json --replay-out /tmp/r.json
echo rc=$?
python3 - <<'PY'
import json
d=json.load(open('/tmp/o.json'))
for k in d:
  if k not in('guards','hashes','schedules','samples','real','stub','guards_total','scenario','property'): print(k,str(d[k])[:2500])
print('distinct',len(d['hashes']))
if d['violation']:
  r=json.load(open('/tmp/r.json'))
  print(json.dumps(r['plan'])[:3000])
  print('\n'.join(r.get('history',[])[-20:]))
PY
