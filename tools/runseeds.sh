#!/bin/bash
# runseeds.sh [ID...]: apply each planted change to a scratch copy and run the check of its property on it
cd /verif/seeded
for s in ${@:-*}; do
  d=$(mktemp -d /tmp/rsXXXX); cp -a /repo/. $d/; (cd $d && git apply /verif/seeded/$s/patch.diff) || echo "$s: does not apply"
  c=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  out=$(cd /verif && VERIF_REPO=$d timeout 900 python3 check.py $c 2>&1); rc=$?
  echo "$s $c rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations $(echo "$out"|grep -ci undecided) undecided"
  rm -rf "$d"
done
