#!/bin/bash
# tryp.sh scenario [workloads] [seed]
rm -f /tmp/o.json /tmp/r.json
python3-vt -B /verif/py/sim_main.py --scenario $1 --seed ${3:-1} --shard 0 --shards 1 --workloads ${2:-60} --seconds 100 --known "" --out /tmp/o.json --replay-out /tmp/r.json; echo rc=$?
python3 - <<'P'
import json
d=json.load(open('/tmp/o.json'))
print({k:d[k] for k in ('runs','workloads','nontrivial','rechecks','wall_s','fired','probes','steps')}, len(d['hashes']))
print(d['violation'])
P
[ -f /tmp/r.json ] && python3-vt -B /verif/py/sim_main.py --replay /tmp/r.json --pretty 1 | tail -${4:-30}
