#!/bin/bash
# tryseed.sh ID [checks...]: does the planted bug ID build, pass the tests, show in its demo,
# and get caught by the checks?  Leaves /repo as it was.
id=$1; shift
S=/verif/seeded/$id
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /repo && bash "$S/demo.sh" >/tmp/seed-$id.log 2>&1) && echo "clean demo: ok" || { echo "clean demo FAILS"; tail -5 /tmp/seed-$id.log; }
git -C /repo apply "$S/patch.diff" || exit 2
bash /verif/tools/rt
(cd /repo && bash "$S/demo.sh" >/tmp/seed-$id.log 2>&1) && echo "patched demo PASSES" || { echo "patched demo: fails as it should"; grep -v '^demo' /tmp/seed-$id.log | tail -3 | cut -c1-300; }
for p in $prop "$@"; do
  VERIF_SEED=1 python3 /verif/check.py $p quick >/tmp/seed-$id-$p.log 2>&1; echo "$p exit $?  $(grep -m1 VIOLATION /tmp/seed-$id-$p.log)"
done
git -C /repo checkout -q -- .
