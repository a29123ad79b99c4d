#!/bin/bash
# try_seed.sh ID [check...]: applies seeded/ID/patch.diff to /repo, runs tests, demo and checks, and undoes it.
id=$1; shift; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$NODEMO" = "" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); echo "$id demo clean: $?"; fi
git -C /repo apply $d/patch.diff || exit 2
if [ "$NOTEST" = "" ]; then bash /tmp/runtests.sh 2>&1 | tail -1; fi
if [ "$NODEMO" = "" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); echo "$id demo patched: $?"; tail -3 /tmp/demo1.log; fi
for c in ${@:-$p}; do
  /verif/bin/check $c quick > /tmp/seedcheck-$id-$c.log 2>&1; echo "$id check $c: rc=$? $(grep -m1 VIOLATION /tmp/seedcheck-$id-$c.log)"
done
