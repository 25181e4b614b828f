#!/bin/bash
# runall.sh <quick|thorough> [ids]: run every check, one line each
T=${1:-quick}; shift
IDS=${@:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('/verif/properties.jsonl')])")}
for i in $IDS; do
  s=$(date +%s.%N); /usr/bin/time -f "rss %M KB" timeout 900 /verif/check.sh $i $T > /tmp/run_$i.log 2>&1; rc=$?; e=$(date +%s.%N)
  echo "$i rc=$rc $(echo "$e-$s"|bc) $(grep rss /tmp/run_$i.log) $(grep VIOLATION /tmp/run_$i.log)"
done
