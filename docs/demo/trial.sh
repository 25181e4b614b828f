#!/bin/bash
# trial.sh <ids...>: confirm each seed (builds, stable tests pass, demo 0/nonzero) and run its property's quick check on it
cd /verif
W=/tmp/trial_repo
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  /bin/rm -rf $W; git clone -q /repo $W
  mkdir -p /tmp/trial_t
  ( cd $W && DEMO_TARGET=/tmp/trial_t bash $S/demo.sh >/tmp/trial_$id.a 2>&1 ); a=$?
  git -C $W apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  ( cd $W && DEMO_TARGET=/tmp/trial_t bash $S/demo.sh >/tmp/trial_$id.b 2>&1 ); b=$?
  git -C /repo apply $S/patch.diff
  t=ok; if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/trial_$id.build 2>&1 || t=BUILDFAIL
  bash /opt/vp/test.sh /tmp/trial_$id.json >/dev/null 2>&1
  python3 - /tmp/trial_$id.json <<'P' || t=TESTFAIL
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=set(b['stable'])-set(o['passed'])
if m: print('missing',m); sys.exit(1)
P
  fi
  s=$(date +%s); ./check.sh $P quick >/tmp/trial_$id.check 2>&1; c=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  [ "$c" = 1 ] || [ "$c" = 0 ] && { sed -i "/^$id /d" docs/caught.txt; echo "$id $c" >> docs/caught.txt; }
  echo "$id ($P): demo clean=$a patched=$b tests=$t check=$c $((e-s))s $(grep -B3 VIOLATION /tmp/trial_$id.check | head -1 | cut -c1-150)"
done
/bin/rm -rf $W
