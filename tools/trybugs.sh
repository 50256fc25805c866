#!/bin/bash
# trybugs.sh [ID...]: runs the property's own check against each planted bug, in a scratch copy of /repo
cd "$(dirname "$0")/.."
W=/tmp/bugwork
[ -d $W ] || cp -a /repo $W
git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $W apply $PWD/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  o=$(TRELLIS_REPO=$W timeout 900 python3 vlib/run.py $p 2>&1); rc=$?
  python3 tools/bugres.py "$d" "$rc" "$o"; echo "$d ($p): $([ $rc = 1 ] && echo caught || echo "MISSED rc=$rc") $(echo "$o" | grep -m1 'violated' | cut -c1-150)"
  git -C $W reset -q --hard
done
