#!/bin/bash
# Apply a planted change in /repo, build, run its demo and check, undo.
# tools/tryseed.sh ID [--tests]
id=$1
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /repo || exit 1
test -z "$(git status --porcelain)" || { echo "dirty /repo"; exit 1; }
sh /verif/seeded/$id/demo.sh >/tmp/demo0.log 2>&1; d0=$?
git apply /verif/seeded/$id/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; b=$?
sh /verif/seeded/$id/demo.sh >/tmp/demo1.log 2>&1; d1=$?
t=-
if [ "$2" = "--tests" ]; then
  bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1; t=$(tail -1 /tmp/seedtest.log)
fi
(cd /verif && ./check $prop >/tmp/seedcheck.log 2>&1); c=$?
git checkout -q -- .
v=$(grep -c "^VIOLATION property=$prop" /tmp/seedcheck.log)
echo "$id $prop: build $b demo clean $d0 patched $d1 tests [$t] check $c violations $v"
