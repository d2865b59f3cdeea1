#!/bin/bash
# usage: trybug.sh <seeded id>...   -- run the check of each planted change's property on a scratch copy of /repo with the change applied
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=/tmp/tb-$id; mkdir -p $w; cp -a /repo/. $w/; git -C $w apply $d/patch.diff || exit 3
  VP_REPO=$w timeout 900 python3 /verif/lib/run.py $prop quick > /tmp/tb-$id.log 2>&1; rc=$?
  echo "$id $prop rc=$rc $(grep -c VIOLATION /tmp/tb-$id.log) $(grep -m1 'violations' /tmp/tb-$id.log)"
  rm -rf "/tmp/tb-$id"
done
