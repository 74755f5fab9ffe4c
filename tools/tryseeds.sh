#!/bin/bash
# runs each seeded bug's check against a scratch copy with the bug planted
# usage: tryseeds.sh [id ...]
cd "$(dirname "$0")/.."
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
  r=/tmp/tryseed-$id
  rm -rf "$r"; cp -a /repo "$r"
  git -C "$r" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t0=$(date +%s)
  PSX_REPO=$r PSX_EVIDENCE=/tmp/tryseed-$id.ev python3-vt check.py $prop > /tmp/tryseed-$id.log 2>&1
  rc=$?
  echo "$id $prop rc=$rc $(($(date +%s)-t0))s $(grep -m1 VIOLATION /tmp/tryseed-$id.log)"
  rm -rf "$r"
done
