#!/bin/bash
# usage: tryseed.sh ID [CHECK...]: does a planted change count, and do the checks see it?
# Needs a clean /repo, and leaves it clean.
id=$1; shift
dir=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
checks=${*:-$prop}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
copy=$(mktemp -d /tmp/seedXXXXXX); cp "$dir"/* "$copy"/ -r; rm -f "$copy"/*.diff "$copy"/meta.json
cd /repo || exit 2
timeout 300 bash "$copy/demo.sh" >/tmp/x/demo0.out 2>&1; clean=$?
git apply "$dir/patch.diff" || { echo "$id: does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .; python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1])" "$copy"' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: does not build"
bash /opt/vp/test.sh /tmp/x/t.json >/tmp/x/test.out 2>&1
grep -q '1 passed' /tmp/x/test.out && tests=pass || tests=FAIL
timeout 300 bash "$copy/demo.sh" >/tmp/x/demo1.out 2>&1; broken=$?
res=""
for c in $checks; do
  (cd /verif && python3 run.py $c >/tmp/x/check.out 2>&1); rc=$?
  res="$res $c=$rc($(grep -c '^VIOLATION' /tmp/x/check.out))"
done
echo "$id: demo clean=$clean broken=$broken tests=$tests checks:$res"
