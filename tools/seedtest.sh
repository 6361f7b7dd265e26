#!/bin/bash
# seedtest.sh ID... : confirms planted bugs and runs the checks of their property.
# With CHECKS="C01 C02" runs those instead; with NOTESTS=1 skips the test suite.
cd /verif || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  if [ -n "$(git -C /repo status --porcelain)" ]; then echo "/repo not clean"; exit 1; fi
  (cd /repo && bash $d/demo.sh >/tmp/demo-clean.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || b=FAIL
  t=skip
  if [ -z "$NOTESTS" ]; then
    bash /opt/vp/test.sh /tmp/seed-tests.json >/tmp/seed-tests.log 2>&1
    t=$(python3 /verif/tools/cmptests.py /tmp/seed-tests.json)
  fi
  (cd /repo && bash $d/demo.sh >/tmp/demo-bug.log 2>&1); c=$?
  out="$id ($p): clean demo $a, bug demo $c, build $b, tests $t;"
  for ck in ${CHECKS:-$p}; do
    s=$(date +%s)
    ./check $ck quick >/tmp/seed-check.log 2>&1; r=$?
    out="$out $ck=$r $(grep -c ^VIOLATION /tmp/seed-check.log)v $(( $(date +%s)-s ))s"
  done
  git -C /repo checkout -- .
  echo "$out"
done
